"""Plants bugs: python3 tools/plant.py SPECS.py [name...]

SPECS.py defines SEEDS, a list of dicts {name, property, edits: [(file, old, new)],
demo (python source), needs, what}.  A seed is written to seeded/<name>/ only after it was
confirmed on a scratch clone of /repo: it compiles, passes the stable tests, and its demonstration
fails with the change and passes without it.
"""
import json, os, subprocess, sys

REPO = '/tmp/plant_repo'
OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/sh
# run with cwd = the repository, after the build
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def restore():
    run('rm -rf /tmp/plant_repo && git clone -q /repo /tmp/plant_repo')


def stable():
    """Number of tests that pass, and whether all do."""
    p = run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout --timeout=300 --disable-warnings '
            '-o python_files=*test.py segeval', cwd=REPO, timeout=600,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
                     PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPATH=REPO))
    line = p.stdout.strip().splitlines()[-1]
    return [] if p.returncode == 0 and '216 passed' in line else [line]


def plant(seed):
    restore()
    folder = os.path.join(OUT, seed['name'])
    work = '/tmp/plant_' + seed['name']
    os.makedirs(work, exist_ok=True)
    open(work + '/demo.sh', 'w').write(DEMO_SH)
    open(work + '/demo.py', 'w').write(seed['demo'])
    clean = run('sh %s/demo.sh' % work, cwd=REPO, timeout=300)
    try:
        for path, old, new in seed['edits']:
            path = os.path.join(REPO, path)
            text = open(path).read()
            if text.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (path, text.count(old), old[:60])
            open(path, 'w').write(text.replace(old, new))
        build = run('/opt/venv/bin/python -m compileall -q segeval', cwd=REPO)
        missing = stable()
        dirty = run('sh %s/demo.sh' % work, cwd=REPO, timeout=300)
        patch = run('git -C /tmp/plant_repo diff').stdout
    finally:
        restore()
    if clean.returncode != 0:
        return 'demo fails on the unchanged tree: ' + clean.stdout[-600:]
    if build.returncode != 0:
        return 'does not build: ' + build.stdout[-300:]
    if missing:
        return 'tests notice: %s' % missing
    if dirty.returncode == 0:
        return 'demo does not notice'
    os.makedirs(folder, exist_ok=True)
    open(folder + '/demo.sh', 'w').write(DEMO_SH)
    open(folder + '/demo.py', 'w').write(seed['demo'])
    open(folder + '/patch.diff', 'w').write(patch)
    json.dump({'property': seed['property'], 'needs': seed['needs'],
               'what_it_breaks': seed['what']}, open(folder + '/meta.json', 'w'), indent=1)
    return 'ok'


if __name__ == '__main__':
    space = {}
    exec(open(sys.argv[1]).read(), space)
    for seed in space['SEEDS']:
        if len(sys.argv) > 2 and seed['name'] not in sys.argv[2:]:
            continue
        print(seed['name'], seed['property'], plant(seed), flush=True)
