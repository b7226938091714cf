"""Concrete runs of contracts on the real code (run with the repository's own Python).

stdin: JSON list of jobs {"key", "seeds": [..]} or {"key", "values": {...}}; stdout: JSON list of results.
"""
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True


def run_one(c, seed, values, maxn):
    from vc.conspec import ConSpec
    from vc.spec import StopContract, Discard
    import numpy as np
    S = ConSpec(seed, values, maxn=maxn)
    out = {'seed': seed, 'status': 'ok'}
    try:
        with np.errstate(all='ignore'):
            c.fn(S)
    except StopContract:
        pass
    except Discard:
        if not S.failures:
            out['status'] = 'discard'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        S.failures.append(('contract could not be evaluated on the result', '%s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)))
    finally:
        S.close()
    out['checks'] = S.nchecks
    if S.failures:
        out['status'] = 'fail'
        out['failures'] = S.failures[:6]
        out['values'] = S.log
    return out


def main():
    jobs = json.load(sys.stdin)
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import contracts
    contracts.load_all()
    from vc.spec import REGISTRY
    by = {c.key: c for c in REGISTRY}
    results = []
    for j in jobs:
        c = by[j['key']]
        r = {'key': j['key'], 'runs': 0, 'discard': 0, 'checks': 0, 'fails': []}
        t0 = time.time()
        if 'values' in j:
            o = run_one(c, j.get('seed', 0), j['values'], 6)
            r['runs'] = 1
            r['checks'] = o['checks']
            r['discard'] = int(o['status'] == 'discard')
            if o['status'] == 'fail':
                r['fails'].append(o)
        else:
            for s in j['seeds']:
                if time.time() - t0 > j.get('budget', 30):
                    break
                maxn = (4, 5, 3, 7, 4, 12, 6, 3, 5, 9)[s % 10]
                o = run_one(c, s, None, maxn)
                r['runs'] += 1
                r['checks'] += o['checks']
                r['discard'] += int(o['status'] == 'discard')
                if o['status'] == 'fail':
                    r['fails'].append(o)
                    if len(r['fails']) >= 3:
                        break
        r['wall'] = time.time() - t0
        results.append(r)
    os.write(real_out, b'')
    with os.fdopen(real_out, 'w') as f:
        json.dump(results, f, default=str)


if __name__ == '__main__':
    main()
