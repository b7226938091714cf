#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] : decides one property of the working tree in /repo."""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
RUNPY = os.environ.get('VERIF_RUNPY', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')


def sym_job(key, sizes, budget, ms, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from vc.explore import explore
    from vc import core
    from vc.spec import REGISTRY
    c = [x for x in REGISTRY if x.key == key][0]
    try:
        rep = explore(c, sizes, budget=budget, ms=ms)
        d = rep.as_dict()
        d['solver_time'] = dict(core.SOLVER_TIME)
    except BaseException as e:
        d = {'complete': False, 'error': '%s: %s' % (type(e).__name__, e), 'paths': 0, 'obligations': 0, 'discharged': 0,
             'refuted': [], 'unknown': [], 'unsupported': ['engine error: %s: %s' % (type(e).__name__, e)], 'crashed': [],
             'backends': {}, 'names': {}, 'wall': 0.0, 'nontrivial': 0, 'solver_time': {}}
    conn.send(d)
    conn.close()
    os._exit(0)


def empty_report(why):
    return {'complete': False, 'paths': 0, 'obligations': 0, 'discharged': 0, 'refuted': [], 'unknown': [],
            'unsupported': [why], 'crashed': [], 'backends': {}, 'names': {}, 'wall': 0.0, 'nontrivial': 0, 'solver_time': {}}


class Pool:
    def __init__(self, n):
        self.n = n
        self.running = []
        self.queue = []

    def submit(self, tag, args, hard):
        self.queue.append((tag, args, hard))

    def step(self, on_done):
        while self.queue and len(self.running) < self.n:
            tag, args, hard = self.queue.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=sym_job, args=args + (b,))
            p.start()
            b.close()
            self.running.append((tag, p, a, time.time() + hard))
        keep = []
        for tag, p, a, dl in self.running:
            if a.poll(0):
                try:
                    d = a.recv()
                except EOFError:
                    d = empty_report('verifier process ended without an answer')
                p.join(2)
                if p.is_alive():
                    p.kill()
                on_done(tag, d)
            elif not p.is_alive():
                on_done(tag, empty_report('verifier process died'))
            elif time.time() > dl:
                p.kill()
                p.join()
                on_done(tag, empty_report('hard time limit'))
            else:
                keep.append((tag, p, a, dl))
        self.running = keep
        return bool(self.queue or self.running)


def con_start(jobs):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=env.get('MPLCONFIGDIR', '/tmp'))
    p = subprocess.Popen([RUNPY, os.path.join(HERE, 'vc', 'conrun.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd=HERE, text=True)
    p.stdin.write(json.dumps(jobs))
    p.stdin.close()
    return p


def con_wait(p, timeout):
    import threading
    out = {}

    def rd(k, f):
        out[k] = f.read()
    ts = [threading.Thread(target=rd, args=('o', p.stdout)), threading.Thread(target=rd, args=('e', p.stderr))]
    for t in ts:
        t.start()
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    for t in ts:
        t.join(5)
    try:
        return json.loads(out.get('o') or ''), None
    except Exception:
        return None, (out.get('e') or '')[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--nocon', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--vv', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier
    thorough = tier == 'thorough'
    import contracts
    contracts.load_all()
    from vc.spec import REGISTRY
    cs = [c for c in REGISTRY if c.prop == a.prop and (a.only is None or a.only in c.name)]
    if not cs:
        print('no contracts for %s' % a.prop)
        sys.exit(2)
    # load the working tree on the symbolic array theory once, before forking
    load_error = None
    try:
        from vc import loader
        for m in ('IMTreatment.core', 'IMTreatment.field_treatment', 'IMTreatment.vortex_criterions', 'IMTreatment.vortex_creation'):
            loader.module(m)
    except BaseException as e:
        load_error = '%s: %s' % (type(e).__name__, e)
    bm = 4.0 if thorough else 1.0
    # ---- concrete contract search on the real code (in parallel with the proofs)
    nproc = 2
    runs = lambda c: int(c.con_runs * (8 if thorough else 1))
    chunks = [[] for _ in range(nproc)]
    for i, c in enumerate(cs):
        chunks[i % nproc].append({'key': c.key, 'seeds': [seed * 100000 + k for k in range(runs(c))],
                                  'budget': 20 * bm})
    cps = [] if a.nocon else [con_start(ch) for ch in chunks if ch]
    import threading
    conres, conerr = [], []

    def waiter(p):
        r, e = con_wait(p, 400 * bm)
        if r is None:
            conerr.append(e)
        else:
            conres.extend(r)
    wts = [threading.Thread(target=waiter, args=(p,)) for p in cps]
    for t in wts:
        t.start()
    # ---- deductive runs
    pool = Pool(6)
    state = {c.key: {'c': c, 'unb': None, 'bnd': []} for c in cs}
    todo_b = []
    total_budget = 3000 if thorough else 420
    if load_error is None:
        for c in cs:
            if c.unbounded:
                pool.submit((c.key, 'unb'), (c.key, None, c.budget * bm, 6000 * bm), c.budget * bm * 2 + 20)
            else:
                state[c.key]['unb'] = empty_report(c.why_bounded or 'bounded contract')
                for s in c.sizes:
                    pool.submit((c.key, s), (c.key, s, c.budget * bm, 6000 * bm), c.budget * bm * 2 + 20)

    def done(tag, d):
        key, kind = tag
        st = state[key]
        if a.v and (a.vv or not d['complete'] or d['wall'] > 20):
            print('%6.1f %-50s %-22s %s paths=%d obl=%d/%d wall=%.1f %s' % (
                time.time() - t0, key, kind, 'ok' if d['complete'] else '--', d['paths'], d['discharged'], d['obligations'],
                d['wall'], '' if d['complete'] else (d['unsupported'][:2] or d['crashed'][:2] or [(x['name'], x.get('detail')) for x in (d['refuted'] + d['unknown'])[:3]])))
        if kind == 'unb':
            st['unb'] = d
            if not d['complete']:
                for s in st['c'].sizes:
                    pool.submit((key, s), (key, s, st['c'].budget * bm, 6000 * bm), st['c'].budget * bm * 2 + 20)
        else:
            st['bnd'].append((kind, d))
    while pool.step(done):
        time.sleep(0.02)
        if time.time() - t0 > total_budget:
            for tag, p, conn, dl in pool.running:
                p.kill()
            for tag, p, conn, dl in pool.running:
                done(tag, empty_report('check time budget'))
            pool.running, pool.queue = [], []
            break
    for t in wts:
        t.join()
    # ---- replay refutations on the real code
    violations, spurious, undecided = [], [], []
    replays = []
    for key, st in state.items():
        for kind, d in ([('unb', st['unb'])] if st['unb'] else []) + st['bnd']:
            for r in d['refuted']:
                replays.append((key, kind, r))
    if replays and not a.nocon:
        jobs = [{'key': k, 'values': r['values'], 'seed': 7} for k, kind, r in replays]
        rr, err = con_wait(con_start(jobs), 300)
        if rr is None:
            conerr.append(err)
        else:
            for (k, kind, r), o in zip(replays, rr):
                if o['fails']:
                    violations.append((k, r['name'], 'counter-model replayed', o['fails'][0]))
                else:
                    spurious.append((k, r['name'], kind, r['values'], 'requires-clause not met' if o['discard'] else 'passes'))
    # obligations refuted by the solver whose counter-model the real code does not reproduce: search harder
    # for a failing input of that contract; if there is none, report the obligation itself (unless the bounded
    # instances of the same contract were all discharged, which shows that the counter-model is an artefact of
    # the unbounded encoding)
    vkeys = {v[0] for v in violations} | {o['key'] for o in conres if o['fails']}
    nfi = []
    for s_ in spurious:
        k = s_[0]
        b = state[k]['bnd']
        if k in vkeys or (b and all(d['complete'] for _, d in b)) or k in [n[0] for n in nfi]:
            continue
        nfi.append(s_)
    if nfi and not a.nocon:
        rr, err = con_wait(con_start([{'key': s_[0], 'seeds': [seed * 100000 + 5000 + q for q in range(600)], 'budget': 60}
                                      for s_ in nfi]), 200)
        for o in rr or []:
            if o['fails']:
                f = o['fails'][0]
                violations.append((o['key'], f['failures'][0][0], 'contract search', f))
                nfi = [n for n in nfi if n[0] != o['key']]
    nruns = nchecks = ndisc = 0
    for o in conres:
        nruns += o['runs']
        nchecks += o['checks']
        ndisc += o['discard']
        for f in o['fails'][:1]:
            violations.append((o['key'], f['failures'][0][0], 'contract search', f))
    # ---- known findings: identified by contract and obligation; anything else of that contract is still reported
    kf = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == a.prop]
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    listed = {(k['contract'], k['obligation']) for k in kf}
    violations = [v for v in violations if not all((v[0], x[0]) in listed for x in v[3].get('failures') or [(v[1],)])]
    nfi = [n for n in nfi if (n[0], n[1]) not in listed]
    # ---- evidence
    obl = dis = 0
    samples, per, assumptions = [], [], []
    backends, solver = {}, {}
    nontriv = 0
    for key, st in state.items():
        c = st['c']
        u = st['unb'] or empty_report('not run')
        proved = u['complete']
        bound_ok = bool(st['bnd']) and all(d['complete'] for _, d in st['bnd'])
        level = 'proved (all sizes)' if proved else ('bounded %s' % [s for s, _ in st['bnd']] if bound_ok else 'partly bounded')
        reps = [u] if proved else [d for _, d in st['bnd']]
        o_ = sum(d['obligations'] for d in reps)
        d_ = sum(d['discharged'] for d in reps)
        if proved:
            obl += o_
            dis += d_
        for d in reps:
            for b, n in d['backends'].items():
                backends[b] = backends.get(b, 0) + n
            for b, n in d.get('solver_time', {}).items():
                solver[b] = solver.get(b, 0) + n
            nontriv += d['nontrivial']
        why = ''
        if not proved:
            why = c.why_bounded or '; '.join((u['unsupported'] + u['crashed'] + ['undischarged: ' + x['name'] for x in u['unknown']])[:2])
        per.append({'contract': key, 'functions': c.functions, 'status': level, 'paths': sum(d['paths'] for d in reps),
                    'obligations': o_, 'discharged': d_, 'why_not_unbounded': why,
                    'ensures': sorted({n for d in reps for n in d['names']})[:40]})
        if not proved:
            assumptions.append('BOUNDED (not proved): %s checked for sizes %s only, %d/%d obligations discharged there (%s)' % (
                key, [s for s, _ in st['bnd']], d_, o_, why))
    vac = [p['contract'] for p in per if p['obligations'] == 0]
    repdir = os.path.join(HERE, 'evidence')
    os.makedirs(repdir, exist_ok=True)
    out_lines = []
    seen = set()
    vrec = []
    for k, name, how, f in violations:
        if k in seen:
            continue
        seen.add(k)
        path = os.path.join(repdir, 'replay_%s_%d.json' % (a.prop, len(seen)))
        json.dump({'property': a.prop, 'contract': k, 'failed_obligation': name, 'found_by': how, 'failures': f.get('failures'),
                   'input': f.get('values'), 'seed': f.get('seed'),
                   'how_to_replay': 'echo \'[{"key": "%s", "values": <input>, "seed": %s}]\' | %s vc/conrun.py' % (k, f.get('seed', 7), RUNPY)},
                  open(path, 'w'), indent=1, default=str)
        out_lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
        vrec.append({'contract': k, 'obligation': name, 'replay': path, 'failures': f.get('failures')})
        if a.v:
            print('  !!', k, '|', name, '|', how, '|', f.get('failures'), str({x: y for x, y in list((f.get('values') or {}).items())})[:600])
    for k, name, kind, values, why in nfi:
        seen.add(k)
        path = os.path.join(repdir, 'replay_%s_%d.json' % (a.prop, len(seen)))
        json.dump({'property': a.prop, 'contract': k, 'failed_obligation': name, 'found_by': 'solver refutation (sizes: %s)' % (kind,),
                   'counter_model': values, 'replay_on_real_code': why,
                   'verifier_output': [r for q, kd, r in replays if q == k][:5]}, open(path, 'w'), indent=1, default=str)
        out_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, path))
        vrec.append({'contract': k, 'obligation': name, 'replay': path, 'failures': 'no-failing-input-found'})
    wall = time.time() - t0
    from vc import assumptions as asm
    ev = {'property': a.prop, 'tier': tier, 'seed': seed,
          'level': 'proof',
          'coverage': {'obligations': obl, 'discharged': dis,
                       'checker_cmd': 'python3-vt check.py %s --tier %s' % (a.prop, tier),
                       'trusted_base': asm.TRUSTED,
                       'functions_under_contract': sorted({f for c in cs for f in c.functions}),
                       'backends': backends, 'solver_time_s': {k: round(v, 2) for k, v in solver.items()},
                       'contracts': per,
                       'evaluations': nruns, 'distinct_nontrivial': nontriv, 'concrete_checks': nchecks, 'discarded_inputs': ndisc,
                       'rule': 'all paths of every contract explored symbolically, every ensures-clause discharged by the '
                               'solver for arbitrary sizes/values unless listed as BOUNDED; plus %d concrete runs of the same '
                               'contracts on the real code' % nruns,
                       'samples': [{'contract': p['contract'], 'ensures': p['ensures'][:4]} for p in per[:5]],
                       'spurious_countermodels': [s[:3] + (s[4],) for s in spurious][:10]},
          'assumptions': assumptions + asm.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(vrec)}
    ev['coverage']['violation_records'] = vrec
    if load_error:
        ev['assumptions'].insert(0, 'the working tree could not be loaded on the array theory: ' + load_error)
    json.dump(ev, open(os.path.join(repdir, a.prop + '.json'), 'w'), indent=1, default=str)
    for l in out_lines:
        print(l)
    for s in spurious:
        print('note: counter-model of %s [%s] is not reproduced by the real code (%s)' % (s[0], s[1], s[4]))
    print('%s %s: %d contracts, %d proved for all sizes, %d/%d obligations discharged, %d concrete runs (%d checks), %.1f s' % (
        a.prop, tier, len(cs), sum(p['status'].startswith('proved') for p in per), dis, obl, nruns, nchecks, wall))
    for p in per:
        if not p['status'].startswith('proved'):
            print('  bounded: %s (%s) %s %d/%d' % (p['contract'], p['why_not_unbounded'][:150], p['status'], p['discharged'], p['obligations']))
    if out_lines:
        sys.exit(1)
    if conerr:
        print('concrete run failed to answer: %s' % conerr[0])
        sys.exit(2)
    if not a.nocon and (nchecks == 0 or any(o['runs'] == o['discard'] for o in conres)):
        print('vacuous concrete run: %s' % [o['key'] for o in conres if o['runs'] == o['discard']])
        sys.exit(2)
    if load_error:
        print('note: proofs unavailable (%s); only the concrete contract runs were used' % load_error)
    sys.exit(0)


if __name__ == '__main__':
    main()
