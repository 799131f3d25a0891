"""Run by the project's own interpreter: replay solver models on the real code."""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path[:0] = [os.environ.get('SYM_REPO', '/repo'), HERE, os.path.join(VERIF, 'harness')]
sys.dont_write_bytecode = True
import sym  # noqa: E402


def clean_modules():
    for n in list(sys.modules):
        if n == 'segeval' or n.startswith('segeval.') or n.split('.')[0] in OWN:
            del sys.modules[n]


OWN = set(f[:-3] for f in os.listdir(os.path.join(VERIF, 'harness')) if f.endswith('.py'))


def one(job):
    clean_modules()
    sym._start(job['param'], job['values'])
    out = {'exception': None, 'assumption': False}
    try:
        mod = __import__(job['harness'])
        getattr(mod, job['param']['fn'])()
    except sym.AssumptionFailed:
        out['assumption'] = True
    except Exception as ex:
        out['exception'] = type(ex).__name__
        out['trace'] = traceback.format_exc()[-1500:]
    out['failures'] = list(sym.failures)
    out['observed'] = list(sym.observed)
    sym._finish()
    return out


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    res = []
    for j in jobs:
        res.append(one(j))
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)


main()
