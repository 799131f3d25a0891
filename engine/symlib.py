"""The evaluator's side of the `sym` module used by the property harnesses."""
import traceback
from fractions import Fraction
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_
from .values import *
from . import builtins_ as b
from .builtins_ import T
from .stdlib import model, bi, RowsText, JsonText, to_json, iseq


def declare(I, name, sort, lo=None, hi=None):
    n = I.concrete(name)
    if n in I.inputs:
        raise Unsupported('input %s declared twice' % n)
    e = X.bvar(n) if sort == 'bool' else X.nvar(n, 'i' if sort == 'int' else 'r', lo, hi)
    I.inputs[n] = (sort, e)
    I.pool.declare(n, sort, None if lo is None else X.norm(lo), None if hi is None else X.norm(hi))
    return e


def frac(I, v):
    return None if v is None else Fraction(num(v)[1].args[0])


@model('sym')
def m_sym(I):
    def s_bool(I, a, k):
        return SBool(declare(I, a[0], 'bool'))

    def s_int(I, a, k):
        lo, hi = frac(I, a[1]), frac(I, a[2])
        if lo == hi:
            return int(lo)
        return mk_num('int', declare(I, a[0], 'int', lo, hi))

    def s_dec(I, a, k):
        lo, hi = frac(I, a[1]), frac(I, a[2])
        return SNum('dec', declare(I, a[0], 'real', lo, hi))

    def s_choice(I, a, k):
        opts = [v for _, v in I.entries(a[1])]
        if len(opts) == 1:
            return opts[0]
        e = declare(I, a[0], 'int', 0, len(opts) - 1)
        return mk_union([(X.eq(e, X.const(i)), v) for i, v in enumerate(opts)])

    def s_subset(I, a, k):
        out = []
        name = I.concrete(a[0])
        for i, (_, v) in enumerate(I.entries(a[1])):
            out.append((declare(I, '%s%d' % (name, i), 'bool'), v))
        return VSeq('list', out, I.pc) if I.pc is TRUE else VSeq('list', [(g, v) for g, v in out], I.pc)

    def s_text(I, a, k):
        n = num(a[1])
        suffix = a[2] if len(a) > 2 else ''
        if n[1].op == 'c':
            return ''.join(list('%s%d%s' % (a[0], int(n[1].args[0]), suffix)))
        return Render(a[0], 'int', n[1], suffix)

    def s_fresh(I, a, k):
        if type(a[0]) is str:
            return ''.join(list(a[0]))
        if type(a[0]) is Render:
            return Render(a[0].prefix, a[0].kind, a[0].e, a[0].suffix)
        return a[0]

    def s_fork(I, a, k):
        return I.from_native(I.concrete(a[0]))

    def s_check(I, a, k):
        c = b.truth(I, a[0])
        msg = a[1] if len(a) > 1 else ''
        if type(msg) is not str:
            msg = 'check'
        I.checks.append((I.pc, c, msg, len(I.observed)))

    def s_assume(I, a, k):
        c = b.truth(I, a[0])
        I.assump.append(X.implies(I.pc, c))

    def s_observe(I, a, k):
        I.observed.append((I.pc, I.concrete(a[0]), a[1]))

    def s_eq(I, a, k):
        return mk_bool(b.eq(I, a[0], a[1]))

    def s_cmp(op):
        return bi('cmp', lambda I, a, k: b.cmp(I, op, a[0], a[1]))

    def s_isnum(I, a, k):
        n = num(a[0])
        return n is not None

    def s_tmp(I, a, k):
        return '/tmp'

    def s_mkdir(I, a, k):
        I.L.fs_put(I, I.concrete(a[0]), 'dir')

    def s_write_text(I, a, k):
        I.L.fs_put(I, I.concrete(a[0]), 'file', [force(a[1])])

    def s_write_rows(I, a, k):
        rows = []
        for g, r in I.entries(a[1]):
            cells = []
            for h, c in I.entries(force(r)):
                if g is not TRUE or h is not TRUE:
                    I.unsupported('guarded table')
                cells.append(b.str_(I, force(c)))
            rows.append(cells)
        I.L.fs_put(I, I.concrete(a[0]), 'file', [RowsText(rows, I.concrete(a[2]))])

    def s_write_json(I, a, k):
        I.L.fs_put(I, I.concrete(a[0]), 'file', [JsonText(to_json(I, a[1], False))])
    d = {'bool': s_bool, 'int': s_int, 'dec': s_dec, 'choice': s_choice, 'subset': s_subset, 'isnum': s_isnum, 'tmp': s_tmp, 'mkdir': s_mkdir, 'write_text': s_write_text, 'write_rows': s_write_rows,
         'write_json': s_write_json, 'eq': s_eq}
    d = dict((n, bi(n, f)) for n, f in d.items())
    for n, f in (('check', s_check), ('assume', s_assume), ('observe', s_observe), ('text', s_text),
                 ('fresh', s_fresh), ('fork', s_fork)):
        d[n] = bi(n, f, n in ('check', 'assume', 'observe', 'fork'))
    d['le'] = s_cmp('<=')
    d['lt'] = s_cmp('<')
    d['param'] = I.from_native(I.param)
    d['symbolic'] = True
    return d
