"""Runs a list of cases of one check in this process.

usage: worker.py <check module> <cases.json> <out.jsonl> <cur file>
"""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

import warnings
warnings.simplefilter('ignore')


class CaseTimeout(BaseException):
    pass


def main():
    modname, casefn, outfn, curfn = sys.argv[1:5]
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    spec = json.load(open(casefn))
    seed = spec['seed']
    tier = spec['tier']
    limit = spec['case_limit']
    deadline = spec['deadline']
    faulthandler.enable()

    import numpy as np
    np.seterr(all='ignore')
    import monitor
    import logging
    logging.disable(logging.CRITICAL)

    # which functions of the code under test were observed running
    funcs = set()
    ov = spec['overlay'] + os.sep
    tool = None
    if hasattr(sys, 'monitoring') and not spec.get('nocov'):
        mon = sys.monitoring
        tool = mon.COVERAGE_ID
        mon.use_tool_id(tool, 'verif')

        def started(code, off):
            if code.co_filename.startswith(ov):
                funcs.add(code.co_filename[len(ov):] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(tool, mon.events.PY_START, started)
        mon.set_events(tool, mon.events.PY_START)

    out = open(outfn, 'a')

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    def on_alarm(sig, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    try:
        mod = importlib.import_module('checks.' + modname)
    except Exception as e:
        emit(dict(kind='importfail', err=traceback.format_exc()[-3000:]))
        return

    verbose = os.environ.get('VERIF_VERBOSE')
    if not verbose:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)

    for scen, idx in spec['cases']:
        if time.time() > deadline:
            emit(dict(kind='deadline'))
            break
        with open(curfn, 'w') as f:
            json.dump([scen, idx], f)
        m = monitor.Monitor(scen)
        m.tier = tier
        rng = np.random.default_rng([seed, zlib.crc32(scen.encode()), idx])
        np.random.seed((seed * 7919 + zlib.crc32(scen.encode()) + idx) % (2**32))
        t0 = time.time()
        rec = dict(kind='case', scen=scen, idx=idx)
        signal.alarm(int(limit))
        try:
            mod.SCENARIOS[scen][0](m, rng)
            rec['res'] = 'ok'
        except monitor.Skip:
            rec['res'] = 'skip'
        except monitor.Violation as v:
            rec.update(res='violation', key=v.key, msg=v.msg, data=v.data)
        except CaseTimeout:
            rec.update(res='violation', key='hang',
                       msg='case did not finish within %d s' % limit,
                       data=dict(stack=traceback.format_exc()[-2000:]))
        except MemoryError:
            rec['res'] = 'oom'
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = 'harness'
            for fr in tb:
                if fr.filename.startswith(ov):
                    where = fr.filename[len(ov):] + ':' + fr.name
            rec.update(res='violation',
                       key='exception:%s:%s' % (type(e).__name__, where),
                       msg='unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                       data=dict(traceback=traceback.format_exc()[-2500:]))
        finally:
            signal.alarm(0)
        rec['t'] = time.time() - t0
        rec['oracles'] = m.oracles
        rec['events'] = m.events
        rec['sigs'] = sorted(m.sigs)
        rec['samples'] = m.samples
        if rec['res'] == 'violation':
            rec['trace'] = m.trace[-40:]
        emit(rec)
    try:
        os.unlink(curfn)
    except OSError:
        pass
    emit(dict(kind='done', funcs=sorted(funcs)))


if __name__ == '__main__':
    main()
