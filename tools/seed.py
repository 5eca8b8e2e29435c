#!/usr/bin/env python3
"""Makes and validates planted bugs (never used by a check).

  seed.py make SPEC.py      SPEC defines SEEDS=[dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
  seed.py test ID...        in a private mount namespace with a scratch copy over /repo: demo on the
                            unchanged tree, patch, build, demo, stable tests, and the property's check
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo OMP_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    ids = []
    for s in g['SEEDS']:
        d = tempfile.mkdtemp(prefix='seed')
        out = os.path.join(S, s['id'])
        try:
            diff = ''
            files = {}
            for fn, a, b in s['edits']:
                t = files.get(fn) or open('/repo/' + fn).read()
                assert t.count(a) == 1, (s['id'], fn, t.count(a), a)
                files[fn] = t.replace(a, b)
            for fn, t in files.items():
                p = os.path.join(d, 'new')
                open(p, 'w').write(t)
                r = subprocess.run(['diff', '-u', '--label', 'a/' + fn, '--label', 'b/' + fn, '/repo/' + fn, p],
                                   stdout=subprocess.PIPE, text=True)
                diff += 'diff --git a/%s b/%s\n' % (fn, fn) + r.stdout
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
                      open(out + '/meta.json', 'w'), indent=1)
            ids.append(s['id'])
        finally:
            shutil.rmtree(d)
    return ids


def test(i, check=True):
    prop = json.load(open(os.path.join(S, i, 'meta.json')))['property']
    sc = tempfile.mkdtemp(prefix='seedrepo-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', sc], check=True)
        script = '''
mount --bind %(sc)s /repo || exit 99
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BASEBUILDFAIL
bash %(s)s/%(i)s/demo.sh > %(sc)s.d0 2>&1 || { echo DEMO-FAILS-ON-CLEAN; tail -3 %(sc)s.d0; }
git apply %(s)s/%(i)s/patch.diff || echo PATCHFAIL
bash /opt/vp/build.sh > %(sc)s.b 2>&1 || { echo BUILDFAIL; tail -5 %(sc)s.b; }
bash %(s)s/%(i)s/demo.sh > %(sc)s.d1 2>&1 && echo DEMO-PASSES-WITH-BUG
bash /opt/vp/test.sh %(sc)s.json >/dev/null 2>&1
''' % dict(sc=sc, s=S, i=i)
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msg = r.stdout.strip().replace('\n', ' | ')
        try:
            a = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            b = set(json.load(open(sc + '.json'))['passed'])
            if a - b:
                msg += ' TESTS-MISSING %s' % sorted(a - b)
        except Exception as e:
            msg += ' NO TEST RESULT'
        if check:
            env = dict(os.environ, VERIF_REPO=sc, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=sc + '.ev')
            c = subprocess.run(['python3', 'run.py', prop, '--tier', 'quick'], cwd=V, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'violation' in l.lower()]
            msg += ' CHECK rc=%d %s' % (c.returncode, (v[0][:150] if v else c.stdout[-300:]))
            if c.returncode != 1:
                msg += '   <<<<<<<<<< MISSED'
        return i, msg or 'ok'
    finally:
        shutil.rmtree(sc, ignore_errors=True)
        for x in ('.d0', '.d1', '.b', '.json', '.ev'):
            p = sc + x
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else (os.path.exists(p) and os.remove(p))


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ids = make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(test, ids):
            print(i, m, flush=True)
            fn = os.path.join(V, 'tools', 'seedresults.json')
            r = json.load(open(fn)) if os.path.exists(fn) else {}
            r[i] = 'missed' if 'MISSED' in m else 'yes'
            json.dump(r, open(fn, 'w'), indent=1, sort_keys=True)
