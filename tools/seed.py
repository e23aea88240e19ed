#!/usr/bin/env python3
"""Build and confirm planted changes: seed.py SPEC.py [ids...]. Not used by any check.
A spec is a Python file with SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]."""
import sys, os, subprocess, json, shutil, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedwork'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    shutil.rmtree(WORK, ignore_errors=True)
    sh('git clone -q /repo %s' % WORK)


def tests():
    r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --tb=line --timeout=300 test_cases.py', cwd=WORK)
    return r.stdout[-600:]


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    notest = '--notest' in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    for s in seeds:
        if only and s['id'] not in only:
            continue
        fresh()
        d = os.path.join(VERIF, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new, *which in s['edits']:
            p = os.path.join(WORK, f)
            t = open(p).read()
            if which and t.count(old) == 2:
                a, b, c = t.split(old)
                open(p, 'w').write(a + new + b + old + c if which[0] == 'first' else a + old + b + new + c)
                continue
            if t.count(old) != 1:
                print(s['id'], 'EDIT: %d matches in %s: %r' % (t.count(old), f, old[:80]))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            diff = sh('git diff', cwd=WORK).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(s['demo'].lstrip('\n'))
            for x in s.get('files', ()):
                shutil.copy(os.path.join(VERIF, 'lib', x), os.path.join(d, x))
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n# Run with cwd = the repository.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 200 "$PY" "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = sh('bash %s/demo.sh' % d, cwd='/repo')
            b = sh('bash %s/demo.sh' % d, cwd=WORK)
            c = sh('VERIF_REPO=%s ./check %s' % (WORK, s['property']), cwd=VERIF)
            line = [x for x in c.stdout.splitlines() if 'mechanism=' in x][:2]
            t = '' if notest else tests().splitlines()[-1:]
            print('%s demo base=%d patched=%d check=%d %s tests=%s' % (s['id'], a.returncode, b.returncode, c.returncode, [x.strip() for x in line], t), flush=True)
            if a.returncode:
                print(a.stdout[-800:])
            if not b.returncode:
                print(b.stdout[-800:])
    shutil.rmtree(WORK, ignore_errors=True)


main()
