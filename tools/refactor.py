"""Runs checks on behaviour-preserving rewrites: refactor.py SPECS.py [name...]; SPECS.py defines R, a list of
(name, properties, [(file, old, new)]).  Works on copies of /repo."""
import json, os, shutil, subprocess, sys, time
space = {}
exec(open(sys.argv[1]).read(), space)
W = '/tmp/refactor_work'
CHECK = "import sys; sys.path.insert(0, '/verif'); from engine.driver import main; sys.exit(main(sys.argv[1:]))"
for name, props, edits in space['R']:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git'))
    for path, old, new in edits:
        path = os.path.join(W, path)
        text = open(path).read()
        assert text.count(old) == 1, (name, text.count(old), old)
        open(path, 'w').write(text.replace(old, new))
    env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '-o',
                        'python_files=*test.py', 'segeval'], cwd=W, env=env, capture_output=True, text=True)
    print(name, 'tests:', t.stdout.strip().splitlines()[-1][:100], flush=True)
    if t.returncode:
        print(t.stdout[-1500:])
        continue
    for p in props:
        t0 = time.time()
        r = subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-B', '-c', CHECK, p, 'quick'], capture_output=True, text=True,
                           env=dict(os.environ, SYM_REPO=W, VERIF_SEED='1'))
        bad = r.returncode != 0 or 'undecided:' in r.stdout
        print('   %s rc=%d %.0fs %s' % (p, r.returncode, time.time() - t0, '' if not bad else
              '!!! ' + (r.stdout + r.stderr[-600:])), flush=True)
