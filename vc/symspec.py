"""Deductive back end of the contract vocabulary."""
import z3

from . import nparr as A
from . import loader
from .core import (ENG, SymBool, SymInt, SymReal, Sym, TRUE, FALSE, zb, zint, zreal, z_and, z_or, z_not, z_imp, z_ite,
                   z_cmp, z_toreal, numval, num, mk_np, ite, same, binop, compare, unsupported, is_t, is_f, z_add,
                   COS, SIN, EXP, sym_sqrt)
from .spec import BaseSpec, StopContract


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'extra')

    def __init__(self, name, pc, goal):
        self.name, self.pc, self.goal = name, pc, goal


def B(c):
    if isinstance(c, SymBool):
        return c.z
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    if isinstance(c, A.SymArr) and c.ndim == 0:
        return B(c.item_scalar())
    raise TypeError('not a boolean: %r' % (c,))


class SymSpec(BaseSpec):
    symbolic = True

    def __init__(self, sizes=None, prover=None):
        """sizes None -> symbolic sizes (unbounded); else fixed sizes."""
        self.sizes = sizes
        self.named = {}
        self.obl = []
        self.prover = prover
        self.L = loader.loader()
        self.npmod = self.L.np
        U = loader.module('unum').Unum
        self.U = U
        if not hasattr(SymSpec, 'table0'):
            loader.module('IMTreatment.core')
            SymSpec.table0 = dict(U._unitTable)
        U._unitTable.clear()
        U._unitTable.update(SymSpec.table0)

    def mod(self, name):
        return loader.module(name)

    # -- generators
    def n(self, name, lo=2, hi=None):
        if name in self.named:
            return self.named[name][2]
        if self.sizes is not None:
            v = self.sizes.get(name, 2)
            self.named[name] = ('const', v, v)
            return v
        z = z3.Int(name)
        ENG.fact(z >= lo)
        if hi is not None:
            ENG.fact(z <= hi)
        r = SymInt(z, False)
        self.named[name] = ('int', z, r)
        return r

    def axis(self, name, n, uniform=False):
        n_ = A.zdim(n)
        if uniform:
            x0, d = z3.Real(name + '.x0'), z3.Real(name + '.d')
            self.named[name + '.x0'] = ('real', x0, None)
            self.named[name + '.d'] = ('real', d, None)
            ENG.fact(d > 0)
            from .core import z_mul
            return A.SymArr(A.Storage(lambda i: SymReal(z_add(x0, z_mul(d, z_toreal(i[0]))), False, True), (n_,), 'f'))
        a = A.sym_array(name, (n_,), 'f')
        self.named[name] = ('arr', (a.dims, a.st.fn), None)
        v = numval(n_)
        r = a.reader()
        if v is not None:
            for i in range(int(v) - 1):
                ENG.fact(r((zint(i),)).v < r((zint(i + 1),)).v)
        else:
            i, j = z3.Int('i!ax'), z3.Int('j!ax')
            ai, aj = r((i,)).v, r((j,)).v
            ENG.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n_), ai < aj),
                               patterns=[z3.MultiPattern(ai, aj)]))
        return a

    def arr(self, name, dims, nan=False, k='f', lo=None, hi=None, pos=False, nz=False):
        a = A.sym_array(name, [A.zdim(d) for d in dims], k, nan=nan)
        self.named[name] = ('arr', (a.dims, a.st.fn), None)
        if pos or nz:
            r = a.reader()
            z0 = zreal(0.0) if k == 'f' else 0
            ENG.fact(A.q_forall(a.dims, lambda i: (r(i).v if k == 'f' else r(i).z) > z0 if pos else (r(i).v if k == 'f' else r(i).z) != z0))
        if lo is not None or hi is not None:
            r = a.reader()
            if k == 'f':
                ENG.fact(A.q_forall(a.dims, lambda i: z_and(r(i).v >= zreal(lo) if lo is not None else TRUE,
                                                            r(i).v <= zreal(hi) if hi is not None else TRUE)))
            else:
                ENG.fact(A.q_forall(a.dims, lambda i: z_and(r(i).z >= lo if lo is not None else TRUE,
                                                            r(i).z <= hi if hi is not None else TRUE)))
        return a

    def boolarr(self, name, dims):
        a = A.sym_array(name, [A.zdim(d) for d in dims], 'b')
        self.named[name] = ('arr', (a.dims, a.st.fn), None)
        return a

    def real(self, name, lo=None, hi=None, nz=False, pos=False, dens=8, np_=False):
        z = z3.Real(name)
        if name not in self.named:
            self.named[name] = ('real', z, None)
            if lo is not None:
                ENG.fact(z >= zreal(lo))
            if hi is not None:
                ENG.fact(z <= zreal(hi))
            if nz:
                ENG.fact(z != 0)
            if pos:
                ENG.fact(z > 0)
        return SymReal(z, False, np_)

    def near(self, name, arrs, lo=None, hi=None):
        return self.real(name)

    def int(self, name, lo, hi):
        z = z3.Int(name)
        if name not in self.named:
            self.named[name] = ('int', z, None)
            ENG.fact(z >= num(lo).z)
            ENG.fact(z <= num(hi).z)
            if ENG.solver.check() == z3.unsat:
                ENG.assume(FALSE)
        return SymInt(z, False)

    def bool(self, name):
        z = z3.Int(name)
        self.named[name] = ('int', z, None)
        ENG.fact(z3.And(z >= 0, z <= 1))
        return ENG.decide(z == 1)

    def choice(self, name, opts):
        z = z3.Int(name)
        self.named[name] = ('int', z, None)
        ENG.fact(z3.And(z >= 0, z < len(opts)))
        for k in range(len(opts) - 1):
            if ENG.decide(z == k):
                return opts[k]
        return opts[-1]

    def ufun(self, name):
        """An arbitrary real function of one real (its arguments are compared as polynomials)."""
        F = z3.Function(name, z3.RealSort(), z3.RealSort())
        return lambda x: (lambda y: SymReal(F(z3.simplify(A.cast(y, 'f').v, som=True)), False, False))(num(x))

    def unit(self, name, base):
        z = z3.Real(name)
        self.named[name] = ('real', z, None)
        ENG.fact(z > 0)
        f = SymReal(z, False, False)
        sym = 'vu' + name.replace('.', '_')
        if sym in self.U._unitTable:
            del self.U._unitTable[sym]
        return self.U.unit(sym, f * base), f

    # -- logic
    def assume(self, c):
        ENG.assume(B(c))

    def assume_all(self, dims, body):
        ENG.assume(A.q_forall([A.zdim(d) for d in dims], lambda i: B(body(*[SymInt(x, False) for x in i]))))

    def check(self, name, cond, res=None):
        if isinstance(cond, bool) and not cond:
            goal = FALSE
        else:
            goal = B(cond)
        self.prover(self, name, list(ENG.pc), goal, detail=(None if res is None or res.ok else '%s: %s' % (type(res.exc).__name__, res.exc)))

    def check_all(self, name, dims, body):
        dz = [A.zdim(d) for d in dims]
        c = A.small(dz)
        if c is not None:
            gs = [B(body(*[int(numval(x)) for x in i])) for i in A.each(c)]
            self.prover(self, name, list(ENG.pc), z_and(*gs))
            return
        vs = [A.fresh_int('sk') for _ in dz]
        # the skolem indices are in range while the body is evaluated
        n0 = len(ENG.pc)
        ENG.solver.push()
        rng = A.in_range(vs, dz)
        ENG.pc.append(rng)
        ENG.solver.add(rng)
        try:
            g = B(body(*[SymInt(v, False) for v in vs]))
            self.prover(self, name, list(ENG.pc), g)
        finally:
            ENG.solver.pop()
            extra = ENG.pc[n0 + 1:]
            del ENG.pc[n0:]
            for e in extra:
                ENG.fact(z_imp(rng, e) if mentions(e, vs) else e)

    def el(self, a, *i):
        if isinstance(a, A.SelArr):
            a = a.mat()
        if isinstance(a, (list, tuple)):
            return a[int(numval(A.zdim(i[0])))]
        idx = []
        for k, x in enumerate(i):
            if isinstance(x, int) and x < 0:
                idx.append(z_add(a.dims[k], zint(x)))
            else:
                idx.append(A.zdim(x))
        return a.st.fn(a.smap(tuple(idx)))

    def eq(self, a, b):
        for x in (a, b):
            if not isinstance(x, (Sym, int, float, bool)):
                if isinstance(x, A.SymArr) and x.ndim == 0:
                    continue
                return False
        a, b = A.unwrap0(a), A.unwrap0(b)
        return SymBool(same(a, b))

    def eqn(self, a, b):
        return SymBool(z_cmp('==', num(a).z, num(b).z)) if isinstance(num(a), SymInt) and isinstance(num(b), SymInt) else False

    def lt(self, a, b):
        return mkb(compare('<', a, b))

    def le(self, a, b):
        return mkb(compare('<=', a, b))

    def isnan(self, a):
        a = A.unwrap0(a)
        if isinstance(a, SymReal):
            return SymBool(zb(a.n))
        return a != a if isinstance(a, float) else False

    def And(self, *c):
        return SymBool(z_and(*[B(x) for x in c]))

    def Or(self, *c):
        return SymBool(z_or(*[B(x) for x in c]))

    def Not(self, c):
        return SymBool(z_not(B(c)))

    def imp(self, a, b):
        return SymBool(z_imp(B(a), B(b)))

    def iff(self, a, b):
        a, b = B(a), B(b)
        if a.eq(b):
            return True
        if is_t(a):
            return SymBool(b)
        if is_t(b):
            return SymBool(a)
        if is_f(a):
            return SymBool(z_not(b))
        if is_f(b):
            return SymBool(z_not(a))
        return SymBool(a == b)

    def guard(self, c, th):
        c = B(c)
        return True if is_f(c) else SymBool(z_imp(c, B(th())))

    def ite_b(self, c, a, b):
        return SymBool(z_ite(B(c), B(a), B(b)))

    def ite(self, c, a, b):
        c = B(c)
        if is_t(c):
            return a() if callable(a) else a
        if is_f(c):
            return b() if callable(b) else b
        return ite(c, a() if callable(a) else a, b() if callable(b) else b)

    def true(self):
        return True

    def false(self):
        return False

    def exists(self, dims, body):
        return SymBool(A.q_exists([A.zdim(d) for d in dims], lambda i: B(body(*[SymInt(x, False).py() for x in i]))))

    def forall(self, dims, body):
        return SymBool(A.q_forall([A.zdim(d) for d in dims], lambda i: B(body(*[SymInt(x, False).py() for x in i]))))

    def count(self, dims, body):
        f = A.Fn(lambda i: SymInt(z_ite(B(body(*[SymInt(x, False).py() for x in i])), zint(1), zint(0)), True))
        return A.reg_sum([A.zdim(d) for d in dims], f)

    def sum(self, dims, body):
        f = A.Fn(lambda i: A.cast(body(*[SymInt(x, False).py() for x in i]), 'f'))
        return A.reg_sum([A.zdim(d) for d in dims], f)

    def _rank(self, a, v, strict):
        n = a.dims[0]
        r = a.reader()
        vv = A.cast(v, 'f').v
        c = numval(n)
        if c is not None:
            t = zint(0)
            for i in range(int(c)):
                e = r((zint(i),)).v
                t = z_add(t, z_ite(e <= vv if strict else e < vv, zint(1), zint(0)))
            return SymInt(t, False).py()
        k = A.fresh_int('rank')
        ENG.fact(z3.And(k >= 0, k <= n))
        lo, hi = r((k - 1,)).v, r((k,)).v
        ENG.fact(z3.Implies(k > 0, lo <= vv if strict else lo < vv))
        ENG.fact(z3.Implies(k < n, hi > vv if strict else hi >= vv))
        return SymInt(k, False)

    def rank_ge(self, a, v):
        """Number of elements < v of the increasing array a (index of the first element >= v)."""
        return self._rank(a, v, False)

    def rank_gt(self, a, v):
        return self._rank(a, v, True)

    def length(self, a):
        return a.vlen() if hasattr(a, 'vlen') else len(a)

    def dim(self, a, k):
        return A.pydim(a.dims[k])

    def ndim(self, a):
        return getattr(a, 'ndim', 0)

    def kind(self, a):
        return a.k if hasattr(a, 'k') else A.sk(a)

    def split(self, c):
        return ENG.decide(B(c))

    def disjoint(self, a, b):
        if not isinstance(a, A.SymArr) or not isinstance(b, A.SymArr):
            return True
        return a.st is not b.st

    def snap(self, a):
        return a.copy()

    def unchanged(self, a, s):
        if a.ndim != s.ndim or a.k != s.k:
            return False
        c = [z_cmp('==', d, e) for d, e in zip(a.dims, s.dims)]
        ra, rs = a.reader(), s.reader()
        c.append(A.q_forall(s.dims, lambda i: same(ra(i), rs(i))))
        return SymBool(z_and(*c))

    def sqrt(self, a):
        return A.sqrt(a)

    def cos(self, a):
        return A.cos(a)

    def sin(self, a):
        return A.sin(a)

    def exp(self, a):
        return A.exp(a)

    def abs(self, a):
        return abs(a)

    def pow(self, a, k):
        return binop('**', a, k, npmode=True)

    def div(self, a, b):
        return binop('/', a, b, npmode=True)

    def pi(self):
        return A.PI

    def concrete(self, n):
        v = numval(A.zdim(n))
        return int(v) if v is not None else ENG.concretize(A.zdim(n))

    def isinst(self, o, c):
        return isinstance(o, c)


def mkb(x):
    if x is NotImplemented:
        raise TypeError('incomparable')
    return x


def mentions(e, vs):
    ids = {v.get_id() for v in vs}
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def model_values(model, named):
    """Concrete input values of a counter-model, keyed by generator name."""
    out = {}

    def val(z):
        v = model.eval(z, model_completion=True)
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        f = numval(v)
        if f is None:
            if z3.is_algebraic_value(v):
                f = numval(v.approx(20))
            else:
                return None
        return int(f) if z3.is_int(z) else float(f)
    for nm, (kind, z, _) in named.items():
        if kind == 'const':
            out[nm] = z
        elif kind in ('int', 'real'):
            out[nm] = val(z)
        elif kind == 'arr':
            dims, fn = z
            ds = [val(d) if numval(d) is None else int(numval(d)) for d in dims]
            tot = 1
            for d in ds:
                tot *= max(d, 0)
            if tot > 400:
                continue
            import itertools
            for i in itertools.product(*[range(d) for d in ds]):
                e = fn(tuple(zint(x) for x in i))
                k = '%s[%s]' % (nm, ','.join(map(str, i)))
                if isinstance(e, SymReal):
                    out[k] = val(e.v)
                    if e.n is not False:
                        out[k + '.nan'] = val(zb(e.n))
                else:
                    out[k] = val(e.z)
    return {k: v for k, v in out.items() if v is not None}
