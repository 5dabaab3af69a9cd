#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.py  (development tool).

SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python).
Works in a scratch copy; keeps the bug only if the tests pass and the demo
separates the two trees."""
import json, os, re, shutil, subprocess, sys
R = '/tmp/sd/repo'


def sh(cmd, cwd=R, t=400, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else base.get('stable') or base.get('passing') or base.get('tests') or base
    e = dict(os.environ, PYTHONPATH='/opt/vp/plugins:' + R, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VP_SEED='1',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HYPOTHESIS_STORAGE_DIRECTORY='/tmp/sd/hyp', PATH='/opt/venv/bin:' + os.environ['PATH'])
    r = sh('rm -rf /tmp/sd/hyp; /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 -p vp_seed --hypothesis-seed=1 2>&1 | tail -8', env=e)
    return r.stdout


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    os.makedirs('/tmp/sd', exist_ok=True)
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    for b in g['BUGS']:
        ID = b['id']
        sh('git checkout -q -- .')
        for f, old, new in b['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ID, 'EDIT does not match once', f, s.count(old), repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            d = '/verif/seeded/' + ID
            tmp = '/tmp/sd/' + ID
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + '/patch.diff', 'w').write(sh('git diff').stdout)
            open(tmp + '/demo.py', 'w').write(b['demo'].strip() + '\n')
            open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
            r1 = sh('bash %s/demo.sh' % tmp, cwd='/repo')
            r2 = sh('bash %s/demo.sh' % tmp)
            if r1.returncode or not r2.returncode:
                print(ID, 'DEMO does not separate: clean', r1.returncode, 'patched', r2.returncode, r1.stdout[-300:])
                continue
            t = tests()
            if 'failed' in t or 'error' in t or 'passed' not in t:
                print(ID, 'TESTS fail', t[-500:])
                continue
            shutil.rmtree(d, ignore_errors=True)
            shutil.move(tmp, d)
            v = sh('python3 /verif/check.py %s --repo %s | tail -3' % (b['prop'], R), cwd='/verif')
            print(ID, 'kept;', 'CAUGHT' if 'VIOLATION' in v.stdout else 'MISSED', v.stdout.strip()[-260:].replace('\n', ' | '))
    shutil.rmtree(R, ignore_errors=True)


main()
