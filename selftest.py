"""Conformance of the array theory (vc/nparr.py) with numpy: every expression below is evaluated by the interpreter and
numpy the repository runs with, and by the array theory on symbolic arrays assumed equal to the same samples - once with
concrete sizes, once with symbolic ones; every element, the shape and the NaN pattern have to be proved equal.

    python3-vt selftest.py            # exit 1 on a disagreement; what the theory does not support is listed
"""
import json
import os
import subprocess
import sys

REAL = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
A = [[1., -2., 3.5, 0.], [4., 5.25, -6., 7.], [0.5, 2., 2., -1.]]
B = [[2., 1., -1., 4.], [4., 0.25, 8., -7.], [1., 3., 2., 5.]]
V = [3., 1., 2.]
W = [1., 2.5, 4., 8.]
N = [[1., None, 3., 0.], [4., 5., None, 7.], [None, 2., 2., -1.]]
M = [[False, True, False, False], [True, True, False, True], [False, True, False, False]]

EXPR = '''
a + b|a - b|a * b|a / b|-a|a ** 2|2. / b|1. - a|a + 1|a * w|(a.T * v).T|abs(a)|a > b|a >= 2.|a == b|a != b|~m|m & (a > 0)|m | (a > 0)
a[0]|a[-1]|a[:, 1]|a[:, -1]|a[1:]|a[:, 1:3]|a[:, :-1]|a[::-1]|a[:, ::-1]|a[::2]|a[1, 2]|a[1:, 1:][0, 0]|a[m]|a[~m]|a[[0, 2]]|a[:, [2, 0]]|w[::-1][1:]|a[0:10]|a[-2:]|a[:, -3:-1]
a.T|a.transpose()|a.ravel()|a.copy()|a.sum()|a.mean()|a.min()|a.max()|a.sum(axis=0)|a.mean(axis=1)|a.min(axis=0)|a.max(axis=1)|np.sum(m)|np.any(m)|np.all(m)|np.any(m, axis=0)|np.all(m, axis=0)|np.all(m, axis=1)
np.mean(a)|np.sum(a, axis=1)|np.min(b)|np.max(b)|np.std(np.array([1., 3.]))|np.std(np.array([v[1], v[0]]))|np.argmin(w)|np.argmax(v)|np.argmin(np.abs(w - 3.))|np.argsort(v)|np.sort(v)|v[np.argsort(v)]|np.searchsorted(w, 3.)|np.cumsum(w)
np.where(a > 0, a, b)|np.where(w > 2)[0]|np.where(m)[0]|np.where(m)[1]|np.argwhere(w > 2)|np.nonzero(w > 2)[0]|np.logical_or(m, a > 2)|np.logical_and(m, a > 2)|np.logical_not(m)|np.logical_xor(m, a > 2)
np.isnan(n)|np.isnan(n + a)|np.isnan(n) | m|n * 2|n + a|np.where(np.isnan(n), 0., n)|np.nanmin(n)|np.nanmax(n)|np.nansum(n)|n == n|n > 1|np.min(n)|np.mean(n)|np.sum(n, axis=1)
np.sqrt(a * a)|np.power(a, 2)|np.floor(a)|np.ceil(a)|np.sign(a)|np.maximum(a, b)|np.minimum(a, b)|np.abs(a)|np.isclose(a, a)|np.allclose(a, b)|np.hypot(3., 4.)
np.transpose(a)|np.rot90(a)|np.rot90(a, 2)|np.rot90(a, 3)|np.flipud(a)|np.fliplr(a)|np.flip(w)|np.concatenate((v, w))|np.concatenate((a, b))|np.concatenate((a, b), axis=1)|np.append(v, 5.)|np.append(v, w)|np.hstack((v, w))|np.vstack((w, w))|np.delete(w, 1)|np.delete(a, 1, axis=0)|np.insert(w, 1, 7.)|np.diff(w)|np.trapz(v)|np.trapz(v, dx=.5)|np.trapz(w, w)|np.gradient(w)|np.gradient(w, 2.)|np.gradient(a)[0]|np.gradient(a)[1]|np.gradient(a, .5, 2.)[1]
np.meshgrid(v, w)[0]|np.meshgrid(v, w)[1]|np.arange(5)|np.arange(1, 7, 2)|np.linspace(0., 1., 5)|np.zeros((2, 3))|np.ones(3)|np.full((2, 2), 3.)|np.zeros_like(a)|np.ones_like(w)|np.array([v, v])|np.array([1., 2.]) * 2|np.arange(4) / 2|np.arange(4) // 2|np.arange(4) % 3|np.arange(-3, 3) // 2|np.arange(-3, 3) % 2
a.astype(int)|np.array(a, dtype=int)|np.array(m, dtype=float)|m.astype(int)|np.array([1, 2]) / 2|np.array([True, False]) + 1|np.round(a)|(a > 0).sum()|np.count_nonzero(a > 0)|np.dot(v, v)|np.outer(v, w)
np.ma.masked_array(a, m).mask|np.ma.masked_array(a, m).data|a.shape|a.ndim|len(a)|a.size|list(w)|a.tolist()|w[1:] - w[:-1]|np.array_equal(a, a)|np.array_equal(a, b)|np.array(w)[::-1]|sorted(v)|min(v)|max(w)|sum(w)|a.flatten()|a.reshape((4, 3))|a.reshape(12)
'''
STMT = ['a[m] = 0.', 'a[1, 2] = 9.', 'a[0] = w', 'a[:, 1] = v', 'a[1:, 2:] = 5.', 'a[m] = b[m]', 'a += b', 'a *= 2.', 'a[:, ::-1] *= 2.', 'a[0:2, 1:3] = b[0:2, 0:2]',
        'a[np.isnan(n)] = 1.', 'a[~m] *= 3.', 'a[::2] = 1.', 'c = a[0]; c[1] = 100.', 'c = a.copy(); c[0, 0] = 100.', 'c = a.T; c[0, 1] = 100.', 'c = a[::-1]; c[0, 0] = 100.',
        'c = a[[0]]; c[0, 0] = 100.', 'c = np.array(a); c[0, 0] = 100.', 'c = np.asarray(a); c[0, 0] = 100.', 'c = a[m]; c[0] = 100.', 'c = a.ravel(); c[1] = 100.', 'c = a.astype(float); c[0, 0] = 100.',
        'a[np.where(m)] = 4.', 'a[[0, 1], [2, 3]] = 6.', 'a[a > 2.] -= 1.', 'a[-1, -1] = 8.', 'a /= b', 'a **= 2', 'c = a.transpose(); c *= 2.', 'a[:] = b', 'a[1] += 1']
CASES = [('e', e.strip()) for line in EXPR.replace(' | ', ' \x00 ').splitlines() for e in line.split('|') if e.strip()]
CASES = [(k, e.replace(' \x00 ', ' | ')) for k, e in CASES] + [('s', s) for s in STMT]


def evaluate(kind, code, env):
    if kind == 'e':
        return eval(code, env)
    exec(code, env)
    return env['a']


def flat(np, r):
    if isinstance(r, (tuple, list)):
        r = np.array([float(x) for x in r]) if not hasattr(r, 'dtype') and r and not isinstance(r[0], (list, tuple)) else np.array(r, dtype=float)
    r = np.array(r, dtype=float)
    return list(r.shape), [None if x != x else float(x) for x in r.ravel()]


def real():
    import numpy as np
    nan = lambda l: [[float('nan') if x is None else x for x in r] for r in l]
    out = []
    for kind, code in CASES:
        env = dict(np=np, a=np.array(A), b=np.array(B), v=np.array(V), w=np.array(W), n=np.array(nan(N)), m=np.array(M))
        out.append(flat(np, evaluate(kind, code, env)))
    json.dump([np.__version__, out], sys.stdout)


def theory():
    sys.path.insert(0, HERE)
    os.environ.setdefault('VERIF_REPO', '/repo')
    from vc.spec import Contract
    from vc.explore import explore
    from vc.loader import fake_numpy
    from vc import nparr
    ver, want = json.loads(subprocess.check_output([REAL, os.path.abspath(__file__), '--real']))
    np = fake_numpy()
    bad, unsup, done, obl = [], [], 0, 0
    for (kind, code), (shape, vals) in zip(CASES, want):
        neg = [False]

        def fn(S):
            goals = []
            body(S, goals)
            g = S.And(*goals)
            S.check('every element', S.Not(g) if neg[0] else g)

        def body(S, goals):
            nx, ny = S.n('nx', 3, 3), S.n('ny', 4, 4)
            S.assume(S.And(S.eqn(nx, 3), S.eqn(ny, 4)))

            def given(name, dims, vs, nan=False):
                x = S.arr(name, dims, nan=nan)
                for i, row in enumerate(vs):
                    for j, q in enumerate(row if isinstance(row, list) else [row]):
                        e = S.el(x, i, j) if isinstance(row, list) else S.el(x, i)
                        S.assume(S.isnan(e) if q is None else S.And(S.Not(S.isnan(e)), S.eq(e, q)) if nan else S.eq(e, q))
                return x
            m = S.boolarr('m', (nx, ny))
            for i in range(3):
                for j in range(4):
                    S.assume(S.iff(S.el(m, i, j), S.true() if M[i][j] else S.false()))
            env = dict(np=np, a=given('a', (nx, ny), A), b=given('b', (nx, ny), B), v=given('v', (nx,), V), w=given('w', (ny,), W),
                       n=given('n', (nx, ny), N, True), m=m, list=nparr_list, len=S.length)
            r = evaluate(kind, code, env)
            if isinstance(r, (tuple, list)):
                S.must('length', len(r) == shape[0])
                for i, q in enumerate(r):
                    if isinstance(q, (tuple, list)):
                        for j, z in enumerate(q):
                            goals.append(S.eq(z, vals[i * shape[1] + j]))
                    else:
                        goals.append(S.eq(q, vals[i]))
                return
            if not shape and not hasattr(r, 'dims'):
                pick(S, goals, r, vals[0])
                return
            goals.append(S.eqn(S.ndim(r), len(shape)))
            for k, d in enumerate(shape):
                goals.append(S.eqn(S.dim(r, k), d))
            if len(shape) == 1:
                for i in range(shape[0]):
                    pick(S, goals, S.el(r, i), vals[i])
            elif len(shape) == 2:
                for i in range(shape[0]):
                    for j in range(shape[1]):
                        pick(S, goals, S.el(r, i, j), vals[i * shape[1] + j])

        def pick(S, goals, e, q):
            if q is None:
                goals.append(S.isnan(e))
            elif isinstance(e, bool) or 'Bool' in type(e).__name__ or 'Bool' in str(getattr(e, 'sort', lambda: '')()):
                goals.append(S.iff(e, S.true() if q else S.false()))
            else:
                goals.append(S.eq(e, q))
        nparr_list = list
        c = Contract(fn, 'selftest', code, [], [], True, 0, 60, None, (), '')
        for sizes in ({'nx': 3, 'ny': 4}, None):
            mode = 'symbolic sizes' if sizes is None else 'concrete sizes'
            try:
                rep = explore(c, sizes=sizes, budget=60)
            except Exception as exc:
                unsup.append('%s (%s): %r' % (code, mode, exc))
                continue
            if rep.refuted and sizes is None:
                # sums over symbolic sizes are abstract terms: a disagreement only if the theory excludes numpy's answer
                neg[0] = True
                no = explore(c, sizes=None, budget=60)
                neg[0] = False
                if not no.complete():
                    unsup.append('%s (%s): left abstract, numpy\'s answer not excluded' % (code, mode))
                    continue
            if rep.refuted:
                bad.append('%s (%s): %s' % (code, mode, str(rep.refuted[0])[:160]))
            elif not rep.complete():
                unsup.append('%s (%s): %s' % (code, mode, str((rep.unsupported or rep.crashed or rep.unknown or ['no obligation'])[0])[:120]))
            else:
                done += 1
                obl += rep.obligations
    for u in unsup:
        print('not decided:', u)
    for b_ in bad:
        print('DISAGREEMENT:', b_)
    print('selftest: numpy %s, %d expressions, %d evaluations agree (%d obligations), %d not decided by the theory, %d disagreements'
          % (ver, len(CASES), done, obl, len(unsup), len(bad)))
    return 1 if bad else 0


if __name__ == '__main__':
    if '--real' in sys.argv:
        real()
    else:
        sys.exit(theory())
