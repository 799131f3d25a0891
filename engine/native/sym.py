"""The real interpreter's side of the `sym` module: inputs come from a solver model, results are recorded."""
import os
import shutil
import tempfile
from decimal import Decimal
from fractions import Fraction

symbolic = False
param = {}
_values = {}
_tmp = [None]
failures = []
observed = []
unused = set()
TOL = Fraction(1, 10 ** 9)


class AssumptionFailed(BaseException):
    pass


def _start(p, values):
    param.clear()
    param.update(p)
    _values.clear()
    _values.update(values)
    del failures[:]
    del observed[:]


# Folders are listed in order of creation, the order the evaluator uses (the file system may use any).
_made = {}
_listdir, _scandir = os.listdir, os.scandir


def _listdir_ordered(path='.'):
    names = _listdir(path)
    if _tmp[0] is not None and isinstance(path, str):
        return sorted(names, key=lambda n: (_made.get(os.path.join(path, n).replace('//', '/'), 10 ** 9), n))
    return names


class _Entries(object):
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self.items

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir_ordered(path='.'):
    if _tmp[0] is not None and isinstance(path, str):
        with _scandir(path) as it:
            return _Entries(sorted(it, key=lambda e: (_made.get(os.path.join(path, e.name).replace('//', '/'), 10 ** 9),
                                                      e.name)))
    return _scandir(path)


os.listdir, os.scandir = _listdir_ordered, _scandir_ordered


def _creates(p):
    _made.setdefault(p, len(_made))


def _finish():
    _made.clear()
    if _tmp[0] is not None:
        d, _tmp[0] = _tmp[0], None
        shutil.rmtree(d)


def _get(name, default):
    return _values.get(name, default)


def bool(name):
    return _get(name, False) in (True, 1, '1')


def int(name, lo, hi):
    if lo == hi:
        return lo
    return _int(_get(name, lo))


_int = __builtins__['int'] if isinstance(__builtins__, dict) else __builtins__.int


def dec(name, lo, hi):
    f = Fraction(_get(name, str(lo)))
    return Decimal(f.numerator) / Decimal(f.denominator)


def choice(name, options):
    options = list(options)
    if len(options) == 1:
        return options[0]
    return options[_int(_get(name, 0))]


def subset(name, items):
    return [x for i, x in enumerate(items) if bool('%s%d' % (name, i))]


def text(prefix, n, suffix=''):
    return ''.join(list('%s%d%s' % (prefix, n, suffix)))


def fresh(s):
    return ''.join(list(s)) if isinstance(s, str) else s


def fork(v):
    return v


def check(cond, msg=''):
    if not cond:
        failures.append(msg)


def assume(cond):
    if not cond:
        raise AssumptionFailed()


def observe(name, value):
    observed.append((name, canon(value)))


def isnum(v):
    return isinstance(v, (_int, float, Decimal, Fraction))


def _frac(v):
    if isinstance(v, Decimal) and not v.is_finite() or isinstance(v, float) and (v != v or v in (1e400, -1e400)):
        return None
    return Fraction(v)


def eq(a, b):
    if isnum(a) and isnum(b):
        x, y = _frac(a), _frac(b)
        if x is None or y is None:
            return str(a) == str(b)
        return abs(x - y) <= TOL * max(1, abs(x), abs(y))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        return all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and eq(v, b[k]) for k, v in a.items())
    return a == b


def le(a, b):
    return _frac(a) <= _frac(b) + TOL


def lt(a, b):
    return _frac(a) < _frac(b)


def tmp():
    if _tmp[0] is None:
        _tmp[0] = tempfile.mkdtemp(prefix='symreplay')
    return _tmp[0]


def mkdir(p):
    if not os.path.isdir(p):
        os.mkdir(p)
        _creates(p)


def write_text(p, text):
    _creates(p)
    with open(p, 'w') as f:
        f.write(text)


def write_rows(p, rows, delim):
    _creates(p)
    with open(p, 'w') as f:
        for r in rows:
            f.write(delim.join(str(c) for c in r) + '\n')


def write_json(p, obj):
    _creates(p)
    import json
    with open(p, 'w') as f:
        json.dump(obj, f)


def canon(v):
    if v is None or v is True or v is False or isinstance(v, str):
        return v
    if isnum(v):
        f = _frac(v)
        return ['n', str(f) if f is not None else str(v)]
    if isinstance(v, (list, tuple)):
        return ['l', [canon(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['s', sorted([canon(x) for x in v], key=repr)]
    if isinstance(v, dict):
        return ['d', sorted([[canon(k), canon(x)] for k, x in v.items()], key=repr)]
    return ['o', type(v).__name__]
