"""Confirm and record one planted bug:  plant.py SPEC.py
SPEC defines ID, PROPERTY, EDITS = [(path, old, new)], NEEDS, BREAKS, DEMO (python source run with cwd /repo)."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    W = '/tmp/plant_%s' % s['ID']
    shutil.rmtree(W, ignore_errors=True)
    assert sh('cp -a /repo %s' % W).returncode == 0
    try:
        sh('git checkout -q -- .', cwd=W)
        for path, old, new in s['EDITS']:
            p = os.path.join(W, path)
            t = open(p, encoding='utf-8', newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            assert t.count(old) == 1, (path, t.count(old), old)
            t = t.replace(old, new)
            open(p, 'w', encoding='utf-8', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        d = os.path.join(ROOT, 'seeded', s['ID'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=W, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# exit 0: the property holds in this scenario; nonzero: it is broken\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONPATH="$PWD" exec %s "$here/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok = sh('bash %s/demo.sh' % d, cwd='/repo')
        bad = sh('bash %s/demo.sh' % d, cwd=W)
        print(s['ID'], 'clean rc', ok.returncode, 'patched rc', bad.returncode)
        print(' ', bad.stdout.strip().splitlines()[-1:] if bad.stdout.strip() else '')
        if ok.returncode:
            print(ok.stdout[-1500:])
        good = ok.returncode == 0 and bad.returncode != 0
        os.mkdir(W + '.vp')
        for f in ('build.sh', 'test.sh', 'run_script.py', 'results.py'):
            t = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/r', W + '.vp/r')
            open(W + '.vp/' + f, 'w').write(t)
        b = sh('bash %s.vp/build.sh' % W)
        good &= b.returncode == 0
        sh('bash %s.vp/test.sh %s.json' % (W, W))
        passed = json.load(open(W + '.json'))['passed']
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        print('  build', b.returncode, 'tests missing', miss)
        good &= not miss
        print('  KEPT' if good else '  NOT CONFIRMED (removed)')
        if not good:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(W, ignore_errors=True)
        shutil.rmtree(W + '.vp', ignore_errors=True)
        if os.path.exists(W + '.json'):
            os.remove(W + '.json')


for a in sys.argv[1:]:
    main(a)
