"""Development aid: the project's own unit tests, executed by the evaluator (all inputs concrete)."""
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.setrecursionlimit(100000)
from engine.interp import Interp, Collector
from engine.values import *
from engine.expr import TRUE
from engine import stdlib


def load_fs(I, root):
    for d, ds, fs in os.walk(root):
        if '__pycache__' in d:
            continue
        p = d
        todo = []
        while p not in ('/', ''):
            todo.append(p)
            p = os.path.dirname(p)
        for q in todo:
            I.L.fs_put(I, q, 'dir')
        for f in fs:
            try:
                with open(os.path.join(d, f), encoding='utf-8', newline='') as h:
                    I.L.fs_put(I, os.path.join(d, f), 'file', [h.read()])
            except UnicodeDecodeError:
                pass


def show(v, d=0):
    v = force(v)
    if type(v) is VSeq and d < 4:
        return '(' + ', '.join(show(x, d + 1) for _, x in v.ents[:20]) + ')'
    if type(v) is VDict:
        return '{' + ', '.join('%s: %s' % (show(e[1]), show(e[2], d + 1)) for e in v.ents[:20]) + '}'
    if type(v) is VSet:
        return 'set(' + ', '.join(show(e[1]) for e in v.ents[:20]) + ')'
    if type(v) is SNum:
        return '%s:%s' % (v.kind, v.e)
    return repr(v)


def main():
    ok = bad = 0
    t0 = time.time()
    only = sys.argv[1:]
    for d, ds, fs in sorted(os.walk('/repo/segeval')):
        for f in sorted(fs):
            if not (f.endswith('_test.py') or f == 'test.py'):
                continue
            name = os.path.relpath(os.path.join(d, f), '/repo')[:-3].replace('/', '.')
            if only and not any(o in name for o in only):
                continue
            I = Interp()
            I.L.paths = (os.path.join(HERE, 'shim'),)
            load_fs(I, '/repo/segeval')

            def run(fn):
                col = Collector(None)
                I.collectors = [Collector(None), col]
                I.pc = TRUE
                I.frame = None
                try:
                    fn()
                    return None
                except Dead:
                    return ['%s %s' % (e.cls.name, show(e.native['args']) if e.native else '') for p, e, env in col.items]
                except Unsupported as ex:
                    import traceback
                    return ['UNSUPPORTED %s' % ex]
            mod = []
            r = run(lambda: mod.append(I.L.import_name(I, name)))
            if r:
                print(name, 'IMPORT', r)
                continue
            for e in list(mod[0].attrs.ents):
                c = force(e[2])
                if type(c) is not VClass or 'TestCase' not in [k.name for k in c.mro]:
                    continue
                if c.d.get('__module__') != name:
                    continue
                for n in list(c.d):
                    if n.startswith('test'):
                        def one():
                            o = I.instantiate(c, [], {})
                            I.call(I.getattr(o, 'setUp'), [])
                            I.call(I.getattr(o, n), [])
                        t1 = time.time()
                        r = run(one)
                        if time.time() - t1 > 2:
                            print('slow', name, n, round(time.time() - t1, 1))
                        if r:
                            bad += 1
                            print(name, c.name, n, r)
                        else:
                            ok += 1
    print('ok', ok, 'bad', bad, round(time.time() - t0, 1), 's')


main()
