"""Concrete back end of the contract vocabulary: runs the contract on the real code with real numpy.

Used to replay the verifier's counter-models and to search boundary/random inputs for a failing one.
Inputs are dyadic rationals so that float arithmetic is exact wherever the contract compares exactly.
"""
import random
import sys

import numpy as np

from .spec import BaseSpec, Discard, StopContract


class Failure(Exception):
    pass


class ConSpec(BaseSpec):
    symbolic = False

    def __init__(self, seed=0, values=None, sizes=None, maxn=5):
        self.rng = random.Random(seed)
        self.values = dict(values or {})
        self.sizes = sizes or {}
        self.maxn = maxn
        self.failures = []
        self.nchecks = 0
        self.log = {}
        self.npmod = np
        import unum
        self.mod('IMTreatment.core')
        self.U = unum.Unum
        self.table0 = dict(self.U._unitTable)

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def close(self):
        self.U._unitTable.clear()
        self.U._unitTable.update(self.table0)

    # -- generators
    def _rec(self, name, v):
        self.log[name] = v
        self.values[name] = v
        return v

    def _val(self, name, gen):
        if name in self.values:
            return self._rec(name, self.values[name])
        return self._rec(name, gen())

    def n(self, name, lo=2, hi=None):
        if name in self.values:
            v = int(self.values[name])
        elif name in self.sizes:
            v = self.sizes[name]
        else:
            hi = hi if hi is not None else max(self.maxn, lo)
            v = self.rng.randint(lo, hi)
        return self._rec(name, v)

    def _dy(self, lo=-40, hi=40, den=8):
        return self.rng.randint(lo, hi) / den

    def axis(self, name, n, uniform=False):
        if any(('%s[%d]' % (name, i)) in self.values for i in range(n)) or (uniform and name + '.x0' in self.values):
            if uniform:
                x0, d = float(self.values[name + '.x0']), float(self.values.get(name + '.d', 1.0))
                if not d > 0:
                    raise Discard()
                a = np.array([x0 + d * i for i in range(n)])
            else:
                a = np.array([float(self.values.get('%s[%d]' % (name, i), np.nan)) for i in range(n)])
                if np.any(np.isnan(a)) or not np.all(np.diff(a) > 0):
                    raise Discard()
        elif uniform:
            x0, d = self._dy(), self.rng.choice([0.25, 0.5, 1., 2., 0.75])
            a = np.array([x0 + d * i for i in range(n)])
            self.log[name + '.x0'], self.log[name + '.d'] = x0, d
        else:
            kind = self.rng.random()
            if kind < .35:
                x0, d = self.rng.choice([0., -2., 3., self._dy()]), self.rng.choice([0.25, 0.5, 1., 2.])
                a = np.array([x0 + d * i for i in range(n)])
            else:
                steps = [self.rng.randint(1, 24) / 8 for _ in range(n)]
                a = np.cumsum(steps) + self._dy()
        for i in range(n):
            self.log['%s[%d]' % (name, i)] = float(a[i])
        return a

    def arr(self, name, dims, nan=False, k='f', lo=None, hi=None, pos=False, nz=False):
        dims = tuple(int(d) for d in dims)
        a = np.zeros(dims, dtype=float if k == 'f' else int)
        style = self.rng.random()
        pnan = self.rng.choice([0, 0, .2, .5]) if nan else 0
        for i in np.ndindex(*dims):
            nm = '%s[%s]' % (name, ','.join(map(str, i)))
            if nm in self.values:
                v = float(self.values[nm]) if k == 'f' else int(self.values[nm])
            else:
                L, H = (lo if lo is not None else -5), (hi if hi is not None else 5)
                if k == 'i':
                    v = self.rng.randint(int(L), int(H))
                elif style < .3:
                    v = float(self.rng.randint(int(L), int(H)))
                else:
                    v = self.rng.randint(int(L * 8), int(H * 8)) / 8
                if pos:
                    v = abs(v)
                if (pos or nz) and v == 0:
                    v = 1.0 if k == 'f' else 1
            if (pos and not v > 0) or (nz and v == 0):
                raise Discard()
            if nan and k == 'f':
                f = self.values.get(nm + '.nan', None)
                if f is None:
                    f = self.rng.random() < pnan
                self.log[nm + '.nan'] = bool(f)
                if f:
                    v = np.nan
            self.log[nm] = v if v == v else 0.0
            a[i] = v
        return a

    def boolarr(self, name, dims):
        dims = tuple(int(d) for d in dims)
        p = self.rng.choice([0, .1, .3, .3, .6, .9])
        a = np.zeros(dims, dtype=bool)
        for i in np.ndindex(*dims):
            nm = '%s[%s]' % (name, ','.join(map(str, i)))
            a[i] = bool(self.values[nm]) if nm in self.values else self.rng.random() < p
            self.log[nm] = bool(a[i])
        return a

    def real(self, name, lo=None, hi=None, nz=False, pos=False, dens=8, np_=False):
        def gen():
            for _ in range(100):
                if self.rng.random() < .3:
                    v = float(self.rng.choice([0, 1, -1, 2, -2, .5, -.5, 3]))
                else:
                    v = self._dy(den=dens)
                if (nz and v == 0) or (pos and v <= 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
                    continue
                return v
            raise Discard()
        v = self._val(name, gen)
        v = float(v)
        if (nz and v == 0) or (pos and v <= 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def near(self, name, arrs, lo=None, hi=None):
        """A real, biased towards the elements of the given arrays."""
        def gen():
            a = np.concatenate([np.asarray(x, dtype=float).ravel() for x in arrs])
            a = a[~np.isnan(a)]
            r = self.rng.random()
            if len(a) == 0:
                return self._dy()
            if r < .45:
                return float(self.rng.choice(list(a)))
            if r < .85:
                return float(self.rng.choice(list(a)) + self.rng.choice([-.125, .125, .0625, -.0625]))
            return float(a.min() + (a.max() - a.min()) * self.rng.randint(-2, 10) / 8)
        v = float(self._val(name, gen))
        return v

    def int(self, name, lo, hi):
        lo, hi = int(lo), int(hi)
        if hi < lo:
            raise Discard()
        v = int(self._val(name, lambda: self.rng.randint(lo, hi)))
        if v < lo or v > hi:
            raise Discard()
        return v

    def bool(self, name):
        return bool(self._val(name, lambda: self.rng.random() < .5))

    def choice(self, name, opts):
        i = int(self._val(name, lambda: self.rng.randrange(len(opts))))
        return opts[i % len(opts)]

    def unit(self, name, base):
        """A unit worth (a positive factor) times `base`; returns (unit, factor)."""
        f = float(self._val(name, lambda: self.rng.choice([1., 2., 4., .5, .25, 8., 3.])))
        if not f > 0:
            raise Discard()
        sym = 'vu' + name.replace('.', '_')
        if sym in self.U._unitTable:
            del self.U._unitTable[sym]
        return self.U.unit(sym, f * base), f

    # -- logic
    def assume(self, c):
        if not c:
            raise Discard()

    def assume_all(self, dims, body):
        for i in np.ndindex(*[max(int(d), 0) for d in dims]):
            if not body(*i):
                raise Discard()

    def check(self, name, cond, res=None):
        self.nchecks += 1
        if not bool(cond):
            d = ''
            if res is not None and not res.ok:
                d = '%s: %s' % (type(res.exc).__name__, res.exc)
            self.failures.append((name, d))

    def check_all(self, name, dims, body):
        for i in np.ndindex(*[max(int(d), 0) for d in dims]):
            self.nchecks += 1
            if not bool(body(*i)):
                self.failures.append((name, 'at index %s' % (i,)))
                return

    def el(self, a, *i):
        return a[i] if len(i) != 1 else a[i[0]]

    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        try:
            a, b = float(a), float(b)
        except Exception:
            return False
        if a != a or b != b:
            return a != a and b != b
        if a in (np.inf, -np.inf) or b in (np.inf, -np.inf):
            return a == b
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def eqn(self, a, b):
        return int(a) == int(b) and a == b

    def lt(self, a, b):
        return bool(a < b)

    def le(self, a, b):
        return bool(a <= b)

    def isnan(self, a):
        return bool(a != a)

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not bool(c)

    def imp(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite_b(self, c, a, b):
        return bool(a) if bool(c) else bool(b)

    def guard(self, c, th):
        return bool(th()) if bool(c) else True

    def ite(self, c, a, b):
        r = a if bool(c) else b
        return r() if callable(r) else r

    def true(self):
        return True

    def false(self):
        return False

    def exists(self, dims, body):
        return any(bool(body(*i)) for i in np.ndindex(*[max(int(d), 0) for d in dims]))

    def forall(self, dims, body):
        return all(bool(body(*i)) for i in np.ndindex(*[max(int(d), 0) for d in dims]))

    def count(self, dims, body):
        return sum(1 for i in np.ndindex(*[max(int(d), 0) for d in dims]) if bool(body(*i)))

    def sum(self, dims, body):
        return float(sum([body(*i) for i in np.ndindex(*[max(int(d), 0) for d in dims])], 0.0))

    def rank_ge(self, a, v):
        return int(np.sum(np.asarray(a) < v))

    def rank_gt(self, a, v):
        return int(np.sum(np.asarray(a) <= v))

    def length(self, a):
        return len(a)

    def dim(self, a, k):
        return a.shape[k]

    def ndim(self, a):
        return np.ndim(a)

    def kind(self, a):
        k = np.asarray(a).dtype.kind
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, k)

    def split(self, c):
        """Case split (a proof hint; no effect here)."""
        return bool(c)

    def disjoint(self, a, b):
        return not np.shares_memory(np.asarray(a), np.asarray(b))

    def snap(self, a):
        return np.array(a, copy=True)

    def unchanged(self, a, s):
        a = np.asarray(a)
        return a.shape == s.shape and a.dtype == s.dtype and bool(np.all((a == s) | ((a != a) & (s != s))))

    def sqrt(self, a):
        return float(np.sqrt(a))

    def cos(self, a):
        return float(np.cos(a))

    def sin(self, a):
        return float(np.sin(a))

    def exp(self, a):
        return float(np.exp(a))

    def abs(self, a):
        return abs(a)

    def pow(self, a, k):
        with np.errstate(all='ignore'):
            return float(np.float64(a) ** k)

    def div(self, a, b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))

    def pi(self):
        return float(np.pi)

    def concrete(self, n):
        return int(n)

    def isinst(self, o, c):
        return isinstance(o, c)
