"""Runs checks against planted bugs: python3 tools/seedrun.py [seed...] (or seed:PROP,PROP)"""
import json, os, shutil, subprocess, sys, time
ROOT = '/verif/seeded'
names = sys.argv[1:] or sorted(os.listdir(ROOT))
for entry in names:
    name, _, props = entry.partition(':')
    meta = json.load(open('%s/%s/meta.json' % (ROOT, name)))
    for prop in props.split(',') if props else [meta['property']]:
        work = '/tmp/seedrun_repo_%d' % os.getpid()
        subprocess.run(['git', 'clone', '-q', '/repo', work], check=True)
        subprocess.run(['git', '-C', work, 'apply', '%s/%s/patch.diff' % (ROOT, name)], check=True)
        t = time.time()
        try:
            p = subprocess.run(['./check', prop, 'quick'], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', SYM_REPO=work))
        finally:
            shutil.rmtree(work)
        line = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = p.returncode == 1 and any('property=%s ' % prop in l for l in line)
        print('%-28s %s %s rc=%d %.0fs %s' % (name, prop, 'caught' if ok else 'MISSED', p.returncode, time.time() - t,
              (line or (p.stdout + p.stderr).strip().splitlines()[-1:] or [''])[0][:150]), flush=True)
