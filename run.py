#!/usr/bin/env python3
"""Runs one check:  run.py <property id> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: inconclusive (build failure, monitor not reached, ...).
"""
import argparse
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import overlay  # noqa

NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 4)


def find_module(pid):
    fns = glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))
    if len(fns) != 1:
        raise SystemExit('no check module for ' + pid)
    return os.path.basename(fns[0])[:-3]


def module_info(modname, ov, env):
    """Scenario table and constants of a check module (imports the code)."""
    code = ('import sys,json,os\n'
            'sys.path.insert(1, %r); sys.path.insert(1, %r)\n'
            'import warnings; warnings.simplefilter("ignore")\n'
            'so=os.dup(1); os.dup2(2,1)\n'
            'import importlib; m=importlib.import_module("checks.%s")\n'
            'd=dict(scen={k:list(v[1:3]) for k,v in m.SCENARIOS.items()}, rule=m.RULE,\n'
            ' assumptions=getattr(m,"ASSUMPTIONS",[]), need=getattr(m,"NEED",{}),\n'
            ' case_limit=getattr(m,"CASE_LIMIT",150))\n'
            'os.write(so, json.dumps(d).encode())\n'
            % (HERE, os.path.join(HERE, 'lib'), modname))
    p = subprocess.run([overlay.PY, '-W', 'ignore', '-c', code], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        return None, p.stderr.decode('utf-8', 'replace')
    return json.loads(p.stdout.decode()), ''


def load_known(pid):
    out = []
    fn = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d['property'] == pid and d['status'] == 'open':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--index', type=int)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    pid = args.pid
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 2
    try:
        rc = run(pid, tier, seed, scratch, args, t0)
    except overlay.BuildError as e:
        print('INCONCLUSIVE property=%s: %s' % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(pid, tier, seed, scratch, args, t0):
    modname = find_module(pid)
    src = open(os.path.join(HERE, 'checks', modname + '.py')).read()
    mm = re.search(r"^VARIANT *= *'(\w+)'", src, re.M)
    variant = mm.group(1) if mm else 'plain'
    ov = overlay.make_overlay(scratch, variant)
    env = overlay.base_env()
    env['PYTHONPATH'] = ov
    env['VERIF_OVERLAY'] = ov
    env['VERIF_SCRATCH'] = scratch
    env['VERIF_REPO'] = overlay.REPO
    env['VERIF_TIER'] = tier
    env['TMPDIR'] = scratch
    if args.v:
        env['VERIF_VERBOSE'] = '1'
    wenv = dict(env)
    if variant.startswith('asan'):
        overlay.asan_env(wenv)
    info, err = module_info(modname, ov, wenv)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    build_s = time.time() - t0

    if info is None:
        # the code under test cannot even be imported
        path = os.path.join(evdir, 'replay', '%s-import.json' % pid)
        json.dump(dict(property=pid, error=err[-4000:]), open(path, 'w'))
        write_evidence(pid, tier, seed, dict(evaluations=0, distinct_nontrivial=0,
                       rule='import of the code under test failed',
                       samples=[err[-500:]]), t0, 1, [])
        sys.stderr.write(err[-2000:])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    ti = 0 if tier == 'quick' else 1
    mm = re.search(r'^QUICK *= *(\d+)', src, re.M)
    if mm:
        # more quick cases (never more than the thorough tier has)
        for s, ns in info['scen'].items():
            ns[0] = min(ns[0] * int(mm.group(1)), max(ns[1], ns[0]))
    if args.replay:
        r = json.load(open(args.replay))
        seed = r['seed']
        cases = [(r['scenario'], r['index'])]
    elif args.scenario:
        n = info['scen'][args.scenario][ti]
        cases = [(args.scenario, i) for i in range(n)]
        if args.index is not None:
            cases = [(args.scenario, args.index)]
    else:
        lists = [[(s, i) for i in range(ns[ti])] for s, ns in info['scen'].items()]
        # interleave proportionally, so an early deadline cuts evenly
        cases = sorted(((i + 0.5) / max(len(l), 1), s, i) for l in lists for (s, i) in l)
        cases = [(s, i) for f, s, i in cases]

    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '3000'))
    deadline = time.time() + budget
    nw = max(1, min(NPROC, len(cases)))
    queues = [cases[w::nw] for w in range(nw)]
    results = []
    funcs = set()
    inconcl = []
    crashes = []

    def start(w, q, gen):
        base = os.path.join(scratch, 'w%d.%d' % (w, gen))
        json.dump(dict(seed=seed, tier=tier, cases=q, case_limit=info['case_limit'],
                       deadline=deadline, overlay=ov), open(base + '.cases', 'w'))
        p = subprocess.Popen(
            [overlay.PY, '-W', 'ignore', os.path.join(HERE, 'lib', 'worker.py'),
             modname, base + '.cases', base + '.out', base + '.cur'],
            env=wenv, cwd=scratch, stdin=subprocess.DEVNULL,
            stdout=(None if args.v else subprocess.DEVNULL),
            stderr=open(base + '.err', 'wb'), start_new_session=True)
        return dict(w=w, gen=gen, q=q, p=p, base=base)

    def collect(job):
        recs = []
        try:
            for line in open(job['base'] + '.out'):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        except IOError:
            pass
        return recs

    jobs = [start(w, q, 0) for w, q in enumerate(queues) if q]
    while jobs:
        time.sleep(0.05)
        for job in list(jobs):
            p = job['p']
            r = p.poll()
            hung = False
            if r is None:
                cur = job['base'] + '.cur'
                try:
                    age = time.time() - os.path.getmtime(cur)
                except OSError:
                    age = 0
                if age > info['case_limit'] + 30:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    r = p.returncode
                else:
                    continue
            jobs.remove(job)
            recs = collect(job)
            done = False
            ndone = 0
            for rec in recs:
                if rec['kind'] == 'case':
                    results.append(rec)
                    ndone += 1
                elif rec['kind'] == 'done':
                    done = True
                    funcs.update(rec['funcs'])
                elif rec['kind'] == 'deadline':
                    inconcl.append('deadline')
                elif rec['kind'] == 'importfail':
                    inconcl.append('import: ' + rec['err'][-500:])
                    done = True
            if not done:
                try:
                    scen, idx = json.load(open(job['base'] + '.cur'))
                except Exception:
                    scen, idx = None, None
                errtxt = open(job['base'] + '.err', 'rb').read()[-6000:].decode('utf-8', 'replace')
                if scen is None:
                    inconcl.append('worker died: ' + errtxt[-500:])
                    continue
                key = 'hang' if hung else 'crash'
                msg = ('case never returned' if hung else
                       'process ended with status %s' % r)
                if 'AddressSanitizer' in errtxt or 'runtime error:' in errtxt:
                    key = 'sanitizer'
                    mt = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: .*)', errtxt)
                    msg = mt.group(1) if mt else msg
                    k = errtxt.find(msg[:40])
                    errtxt = errtxt[max(0, k - 200):k + 4000]
                results.append(dict(kind='case', scen=scen, idx=idx, res='violation',
                                    key=key, msg=msg, data=dict(stderr=errtxt[-4000:]),
                                    t=0, oracles=1, events={}, sigs=[], samples=[]))
                rest = job['q'][ndone + 1:]
                crashes.append(key)
                if rest and len(crashes) < 12 and time.time() < deadline:
                    jobs.append(start(job['w'], rest, job['gen'] + 1))

    return report(pid, tier, seed, info, results, funcs, inconcl, t0, build_s,
                  evdir, args, cases)


def write_evidence(pid, tier, seed, coverage, t0, nviol, assumptions):
    d = dict(property=pid, tier=tier, seed=seed, level='exploration',
             coverage=coverage, assumptions=assumptions,
             wall_s=round(time.time() - t0, 2), violations=nviol)
    fn = os.path.join(HERE, 'evidence', pid + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(fn + '.tmp', fn)


def report(pid, tier, seed, info, results, funcs, inconcl, t0, build_s, evdir,
           args, cases):
    known = load_known(pid)
    viols = [r for r in results if r['res'] == 'violation']
    viols.sort(key=lambda r: (r['scen'], r['idx']))
    sigs = set()
    events = {}
    samples = []
    perscen = {}
    for r in results:
        s = perscen.setdefault(r['scen'], dict(cases=0, skipped=0, oracle_evaluations=0, states=0))
        s['cases'] += 1
        s['skipped'] += (r['res'] == 'skip')
        s['oracle_evaluations'] += r['oracles']
        s['states'] += len(r['sigs'])
        sigs.update(r['sigs'])
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        if r['samples'] and len([1 for x in samples if x.get('scenario') == r['scen']]) < 1:
            samples.append(dict(scenario=r['scen'], index=r['idx'], **r['samples'][0]))
    executed = sum(1 for r in results if r['res'] != 'skip')
    oracles = sum(r['oracles'] for r in results)
    newv, knownhit = [], {}
    for r in viols:
        for k in known:
            if (re.fullmatch(k['scenario'], r['scen']) and re.fullmatch(k['key'], r['key'])):
                knownhit.setdefault(k['id'], (k, r))
                break
        else:
            newv.append(r)
    cov = dict(evaluations=executed,
               distinct_nontrivial=len(sigs), rule=info['rule'],
               samples=samples[:20], oracle_evaluations=oracles,
               events_observed=events, per_scenario=perscen,
               repo_functions_observed=len(funcs),
               repo_functions=sorted(funcs),
               skipped_out_of_domain=sum(1 for r in results if r['res'] == 'skip'),
               build_s=round(build_s, 1),
               slowest_case_s=round(max([r['t'] for r in results] or [0]), 2),
               known_findings_reproduced=sorted(knownhit))
    full = not (args.replay or args.scenario)
    if full:
        write_evidence(pid, tier, seed, cov, t0, len(newv), info['assumptions'])
    for kid, (k, r) in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in results:
        if r['res'] == 'oom':
            inconcl.append('out of memory in %s[%d]' % (r['scen'], r['idx']))
    if newv:
        seen = {}
        for r in newv:
            seen.setdefault((r['scen'], r['key']), []).append(r)
        first = None
        for (s, k), rs in seen.items():
            r = rs[0]
            path = os.path.join(evdir, 'replay', '%s-%s-%d.json' % (pid, re.sub(r'\W+', '_', r['scen']), r['idx']))
            json.dump(dict(property=pid, scenario=r['scen'], index=r['idx'], seed=seed,
                           tier=tier, key=r['key'], message=r['msg'], data=r.get('data'),
                           history=r.get('trace'),
                           how='cd /verif && python3 run.py %s --replay %s' % (pid, path)),
                      open(path, 'w'), indent=1)
            print('  [%s] %s #%d (x%d): %s' % (r['key'], r['scen'], r['idx'], len(rs), r['msg'][:400]))
            if args.v or args.replay or args.scenario:
                print(json.dumps(r.get('data'), indent=1).replace('\\n', '\n')[:5000])
                print('history:', '\n    '.join(r.get('trace') or []))
            first = first or path
        print('VIOLATION property=%s replay=%s' % (pid, first))
        return 1
    print('%s %s: %d cases, %d oracle evaluations, %d distinct states, %d repo functions, %.1f s%s'
          % (pid, tier, executed, oracles, len(sigs), len(funcs), time.time() - t0,
             (' [%s]' % '; '.join(sorted(set(inconcl)))) if inconcl else ''))
    if args.v:
        for s, d in sorted(perscen.items()):
            tt = [r['t'] for r in results if r['scen'] == s]
            print('   %-28s %s  t: mean %.3f max %.3f' % (s, d, sum(tt) / len(tt), max(tt)))
        print('   events', events)
    if not full:
        return 0
    bad = [x for x in inconcl if x != 'deadline']
    for s in info['scen']:
        if info['scen'][s][0 if tier == 'quick' else 1] and \
           perscen.get(s, {}).get('oracle_evaluations', 0) == 0:
            bad.append('scenario %s: the monitor evaluated nothing' % s)
    for ev, n in info['need'].items():
        if events.get(ev, 0) < n:
            bad.append('event %s seen %d < %d times' % (ev, events.get(ev, 0), n))
    if 'deadline' in inconcl and executed < 0.2 * len(cases):
        bad.append('deadline reached after %d of %d cases' % (executed, len(cases)))
    if bad:
        print('INCONCLUSIVE property=%s: %s' % (pid, '; '.join(bad)))
        return 2
    return 0


if __name__ == '__main__':
    main()
