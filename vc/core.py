"""Symbolic scalars, path exploration and obligation discharge.

Semantics: Python/numpy floats are mathematical reals plus a NaN flag (infinities appear only as the
concrete constants +-inf and are rejected inside arithmetic); integers are unbounded; float literals
are read as the simplest nearby rational.  Every value is a z3 term, so a proof is for all inputs.
"""
import builtins
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

z3.set_param('memory_max_size', 6000)


class VCError(BaseException):
    """Internal control exceptions (never visible to code under verification on purpose)."""


class Unsupported(VCError):
    pass


class PathDead(VCError):
    pass


class Budget(VCError):
    pass


# ---------------------------------------------------------------- small z3 helpers
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def is_t(e):
    return e is True or (not isinstance(e, bool) and z3.is_true(e))


def is_f(e):
    return e is False or (not isinstance(e, bool) and z3.is_false(e))


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def z_and(*es):
    out = []
    for e in es:
        if is_f(e):
            return FALSE
        if is_t(e):
            continue
        out.append(e)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def z_or(*es):
    out = []
    for e in es:
        if is_t(e):
            return TRUE
        if is_f(e):
            continue
        if any(e.eq(o) for o in out):
            continue
        out.append(e)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def z_not(e):
    if is_t(e):
        return FALSE
    if is_f(e):
        return TRUE
    if z3.is_not(e):
        return e.arg(0)
    return z3.Not(e)


def z_imp(a, b):
    return z_or(z_not(a), b)


def z_ite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_t(a) and is_f(b):
            return c
        if is_f(a) and is_t(b):
            return z_not(c)
        if is_f(a):
            return z_and(z_not(c), b)
        if is_t(a):
            return z_or(c, b)
        if is_f(b):
            return z_and(c, a)
        if is_t(b):
            return z_or(z_not(c), a)
    return z3.If(c, a, b)


def numval(e):
    """Fraction of a numeral, else None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def rat(f):
    """Literal double -> simplest nearby rational."""
    if isinstance(f, Fraction):
        return f
    if isinstance(f, int):
        return Fraction(f)
    x = Fraction(f)
    for lim in (1000, 10 ** 6, 10 ** 9):
        y = x.limit_denominator(lim)
        if y != 0 or x == 0:
            if abs(x - y) <= abs(x) * Fraction(1, 10 ** 15):
                return y
    # decimal reading
    y = Fraction(repr(f))
    return y


def zreal(f):
    f = rat(f)
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def zint(i):
    return z3.IntVal(int(i))


def z_add(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return zint(x + y) if z3.is_int(a) else zreal(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    # a + c1 + c2 folding, and (a - b) + b
    if y is not None and z3.is_add(a) and a.num_args() == 2:
        k = numval(a.arg(1))
        if k is not None:
            return z_add(a.arg(0), zint(k + y) if z3.is_int(a) else zreal(k + y))
    if x is not None:
        return z_add(b, a)
    if z3.is_add(a) and a.num_args() == 2 and numval(a.arg(1)) is not None:
        return z_add(z_add(a.arg(0), b), a.arg(1))
    if z3.is_sub(a) and a.arg(1).eq(b):
        return a.arg(0)
    if z3.is_sub(b) and b.arg(1).eq(a):
        return b.arg(0)
    return a + b


def z_neg(a):
    x = numval(a)
    if x is not None:
        return zint(-x) if z3.is_int(a) else zreal(-x)
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    if z3.is_sub(a) and a.num_args() == 2:
        return z_sub(a.arg(1), a.arg(0))
    return -a


def z_sub(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return zint(x - y) if z3.is_int(a) else zreal(x - y)
    if y is not None:
        return z_add(a, zint(-y) if z3.is_int(a) else zreal(-y))
    if a.eq(b):
        return zint(0) if z3.is_int(a) else zreal(0)
    if x == 0:
        return z_neg(b)
    if z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b):
            return a.arg(1)
        if a.arg(1).eq(b):
            return a.arg(0)
        if numval(a.arg(1)) is not None:
            return z_add(z_sub(a.arg(0), b), a.arg(1))
    if z3.is_sub(a) and a.num_args() == 2 and a.arg(0).eq(b):
        return z_neg(a.arg(1))
    if z3.is_sub(b) and b.num_args() == 2 and b.arg(0).eq(a):
        return b.arg(1)
    if z3.is_add(b) and b.num_args() == 2:
        if b.arg(0).eq(a):
            return z_neg(b.arg(1))
        if b.arg(1).eq(a):
            return z_neg(b.arg(0))
        if numval(b.arg(1)) is not None:
            return z_add(z_sub(a, b.arg(0)), z_neg(b.arg(1)))
    return a - b


def z_mul(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return zint(x * y) if z3.is_int(a) else zreal(x * y)
    if x == 0:
        return a
    if y == 0:
        return b
    if x == 1:
        return b
    if y == 1:
        return a
    if x == -1:
        return z_neg(b)
    if y == -1:
        return z_neg(a)
    return a * b


def z_toreal(a):
    if z3.is_real(a):
        return a
    x = numval(a)
    if x is not None:
        return zreal(x)
    return z3.ToReal(a)


def z_cmp(op, a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return z3.BoolVal({'<': x < y, '<=': x <= y, '==': x == y, '>': x > y, '>=': x >= y, '!=': x != y}[op])
    if a.eq(b):
        return z3.BoolVal(op in ('<=', '==', '>='))
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '!=':
        return a != b
    return a == b


# ---------------------------------------------------------------- engine state
class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.active = False
        self.prefix = []
        self.trace = []
        self.pc = []
        self.solver = None
        self.counter = 0
        self.dontcare = 0
        self.pending = None
        self.sums = []
        self.work = []
        self.lemma_cache = {}
        self.feas_ms = 400
        self.nforks = 0
        self.stats = {}
        self.named = {}
        self.flags = set()
        self.deadline = None

    # -- a path
    def start(self, prefix):
        self.active = True
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.solver = z3.SimpleSolver()
        self.solver.set('smt.mbqi', False)
        self.solver.set('smt.auto_config', False)
        self.solver.set('timeout', self.feas_ms)
        self.counter = 0
        self.dontcare = 0
        self.pending = None
        self.sums = []
        self.lemma_cache = {}
        self.named = {}
        self.flags = set()

    def abort(self, exc):
        self.pending = exc
        raise exc

    def poll(self):
        if self.pending is not None:
            raise self.pending
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(Budget('time budget exceeded during exploration'))

    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def fact(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if is_t(f):
            return
        self.pc.append(f)
        self.solver.add(f)

    axiom = fact

    def assume(self, f):
        if isinstance(f, SymBool):
            f = f.z
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.fact(f)
        if is_f(z3.simplify(f)) or self.solver.check() == z3.unsat:
            self.abort(PathDead('assumption excludes this path'))

    def entails(self, f, ms=300):
        """Quick check: does the path condition imply f?"""
        self.poll()
        if is_t(f):
            return True
        if is_f(f):
            return False
        key = f.get_id()
        c = self.lemma_cache.get(key)
        if c is not None and c[0].eq(f) and (c[1] or c[2] == len(self.pc)):
            return c[1]
        self.solver.push()
        self.solver.set('timeout', ms)
        self.solver.add(z3.Not(f))
        r = self.solver.check() == z3.unsat
        self.solver.pop()
        self.solver.set('timeout', self.feas_ms)
        self.lemma_cache[key] = (f, r, len(self.pc))
        return r

    def decide(self, f):
        self.poll()
        if isinstance(f, bool):
            return f
        if is_t(f):
            return True
        if is_f(f):
            return False
        if not self.active:
            raise Unsupported('symbolic decision outside a path: %s' % f)
        s = z3.simplify(f)
        if is_t(s):
            return True
        if is_f(s):
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            self.fact(f if v else z3.Not(f))
            return v
        self.solver.push()
        self.solver.add(f)
        ct = self.solver.check()
        self.solver.pop()
        if ct == z3.unsat:
            self.trace.append(False)
            self.fact(z3.Not(f))
            return False
        self.solver.push()
        self.solver.add(z3.Not(f))
        cf = self.solver.check()
        self.solver.pop()
        if cf == z3.unsat:
            self.trace.append(True)
            self.fact(f)
            return True
        self.nforks += 1
        self.work.append(self.trace + [False])
        self.trace.append(True)
        self.fact(f)
        return True

    def concretize(self, z, limit=16):
        """Fork on the possible integer values of z."""
        self.poll()
        v = numval(z3.simplify(z))
        if v is not None:
            return int(v)
        for _ in range(limit):
            k = len(self.trace)
            # deterministic choice: model value under current path condition
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*self.pc)
            # prefer small values
            val = None
            for c in range(-2, 9):
                s.push()
                s.add(z == c)
                r = s.check()
                s.pop()
                if r == z3.sat:
                    val = c
                    break
            if val is None:
                if s.check() != z3.sat:
                    self.abort(Unsupported('cannot concretise %s' % z))
                val = s.model().eval(z, model_completion=True).as_long()
            if self.decide(z == val):
                return val
        self.abort(Unsupported('index value not bounded: %s' % z))


ENG = Engine()


def unsupported(msg):
    ENG.abort(Unsupported(msg))


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ()
    __array_priority__ = 1e6

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, getattr(self, 'z', getattr(self, 'v', None)))

    def __format__(self, spec):
        return '<sym>'

    # numpy scalar protocol bits
    ndim = 0
    shape = ()
    size = 1

    def __array__(self, *a):
        unsupported('conversion of a symbolic scalar to a native array')


class SymBool(Sym):
    __slots__ = ('z', 'np')

    def __init__(self, z, np=True):
        self.z = zb(z)
        self.np = np

    def __bool__(self):
        if ENG.dontcare:
            return False
        return ENG.decide(self.z)

    def __invert__(self):
        if not self.np:
            unsupported('~ on python bool')
        return SymBool(z_not(self.z))

    def __and__(self, o):
        return _logic(self, o, z_and)

    def __or__(self, o):
        return _logic(self, o, z_or)

    def __xor__(self, o):
        return _logic(self, o, lambda a, b: z_not(a == b))
    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __hash__(self):
        return hash(self.z)

    def _i(self):
        return SymInt(z_ite(self.z, zint(1), zint(0)), self.np)

    def __index__(self):
        return int(ENG.decide(self.z))

    def __eq__(self, o):
        if isinstance(o, bool):
            return SymBool(self.z if o else z_not(self.z))
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, (int, float, SymInt, SymReal)):
            return self._i() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z_not(r.z))

    def item(self):
        return SymBool(self.z, False)

    def sum(self):
        return self._i()

    def any(self):
        return self
    all = any


def _logic(a, b, f):
    if isinstance(b, bool):
        b = SymBool(b)
    if isinstance(b, SymBool):
        return SymBool(f(a.z, b.z), a.np or b.np)
    return NotImplemented


def num(x):
    """Normalise a scalar operand to SymInt/SymReal, or None."""
    if isinstance(x, (SymInt, SymReal)):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, bool):
        return SymInt(zint(int(x)), False)
    if isinstance(x, int):
        return SymInt(zint(x), False)
    if isinstance(x, float):
        if x != x:
            return SymReal(zreal(0), True, False)
        if x in (float('inf'), float('-inf')):
            return None
        return SymReal(zreal(x), False, False)
    if isinstance(x, Fraction):
        return SymReal(zreal(x), False, False)
    return None


INF = float('inf')


def is_inf(x):
    return isinstance(x, float) and x in (INF, -INF)


def _real_parts(x):
    if isinstance(x, SymReal):
        return x.v, x.n
    return z_toreal(x.z), False


def n_or(a, b):
    r = z_or(zb(a), zb(b))
    return False if is_f(r) else r


# uninterpreted functions with axioms attached at proof time
SQRT = z3.Function('sqrt_', z3.RealSort(), z3.RealSort())
COS = z3.Function('cos_', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin_', z3.RealSort(), z3.RealSort())
EXP = z3.Function('exp_', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log_', z3.RealSort(), z3.RealSort())
ARCCOS = z3.Function('arccos_', z3.RealSort(), z3.RealSort())
ARCTAN2 = z3.Function('arctan2_', z3.RealSort(), z3.RealSort(), z3.RealSort())
ARCTAN = z3.Function('arctan_', z3.RealSort(), z3.RealSort())
POW = z3.Function('pow_', z3.RealSort(), z3.RealSort(), z3.RealSort())


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        if isinstance(self, SymReal):
            return ENG.decide(z_or(zb(self.n), z_cmp('!=', self.v, zreal(0))))
        return ENG.decide(z_cmp('!=', self.z, zint(0)))

    def __hash__(self):
        return 0

    def __add__(self, o):
        return binop('+', self, o)

    def __radd__(self, o):
        return binop('+', o, self)

    def __sub__(self, o):
        return binop('-', self, o)

    def __rsub__(self, o):
        return binop('-', o, self)

    def __mul__(self, o):
        return binop('*', self, o)

    def __rmul__(self, o):
        return binop('*', o, self)

    def __truediv__(self, o):
        return binop('/', self, o)

    def __rtruediv__(self, o):
        return binop('/', o, self)

    def __floordiv__(self, o):
        return binop('//', self, o)

    def __rfloordiv__(self, o):
        return binop('//', o, self)

    def __mod__(self, o):
        return binop('%', self, o)

    def __rmod__(self, o):
        return binop('%', o, self)

    def __pow__(self, o):
        return binop('**', self, o)

    def __rpow__(self, o):
        return binop('**', o, self)

    def __neg__(self):
        if isinstance(self, SymReal):
            return SymReal(z_neg(self.v), self.n, self.np)
        return SymInt(z_neg(self.z), self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        if isinstance(self, SymReal):
            return SymReal(z_abs(self.v), self.n, self.np)
        return SymInt(z_abs(self.z), self.np)

    def __lt__(self, o):
        return compare('<', self, o)

    def __le__(self, o):
        return compare('<=', self, o)

    def __gt__(self, o):
        return compare('>', self, o)

    def __ge__(self, o):
        return compare('>=', self, o)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    def copy(self):
        return self

    def conjugate(self):
        return self

    def item(self):
        return self.py()

    @property
    def flat(self):
        return [self]

    @property
    def real(self):
        return self


def z_abs(v):
    x = numval(v)
    if x is not None:
        return zint(abs(x)) if z3.is_int(v) else zreal(abs(x))
    if z3.is_app_of(v, z3.Z3_OP_UMINUS):
        return z_abs(v.arg(0))
    zero = zint(0) if z3.is_int(v) else zreal(0)
    return z3.If(v >= zero, v, -v)


class SymInt(_Num):
    __slots__ = ('z', 'np')

    def __init__(self, z, np=False):
        self.z = z if not isinstance(z, int) else zint(z)
        self.np = np

    def py(self):
        v = numval(self.z)
        return int(v) if v is not None else SymInt(self.z, False)

    def __index__(self):
        return ENG.concretize(self.z)

    def __int__(self):
        return ENG.concretize(self.z)

    def __float__(self):
        return float(ENG.concretize(self.z))


class SymReal(_Num):
    __slots__ = ('v', 'n', 'np')

    def __init__(self, v, n=False, np=True):
        self.v = v
        self.n = False if is_f(zb(n)) else (TRUE if is_t(zb(n)) else n)
        self.np = np

    def py(self):
        return SymReal(self.v, self.n, False)

    @property
    def z(self):
        return self.v

    def __float__(self):
        v = numval(z3.simplify(self.v))
        if v is not None and self.n is False:
            return float(v)
        unsupported('float() of a symbolic real by native code')

    def __int__(self):
        v = numval(z3.simplify(self.v))
        if v is not None and self.n is False:
            return int(v)
        unsupported('int() of a symbolic real by native code')

    def __array_wrap__(self, *a):
        unsupported('array wrap')


def mk_np(s, np=True):
    if isinstance(s, SymReal):
        return SymReal(s.v, s.n, np)
    if isinstance(s, SymInt):
        return SymInt(s.z, np)
    if isinstance(s, SymBool):
        return SymBool(s.z, np)
    if isinstance(s, bool):
        return SymBool(s, np)
    n = num(s)
    if n is not None:
        return mk_np(n, np)
    return s


def compare(op, a, b):
    if is_inf(b) or is_inf(a):
        if is_inf(a):
            return compare({'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op], b, a)
        nan = a.n if isinstance(a, SymReal) else False
        pos = b > 0
        r = {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        if op == '!=':
            return SymBool(True)
        return SymBool(z_and(zb(r), z_not(zb(nan))))
    x, y = num(a), num(b)
    if x is None or y is None:
        return NotImplemented
    np = x.np or y.np
    if isinstance(x, SymInt) and isinstance(y, SymInt):
        return SymBool(z_cmp(op, x.z, y.z), np)
    (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
    nan = z_or(zb(xn), zb(yn))
    c = z_cmp(op, xv, yv)
    if op == '!=':
        return SymBool(z_or(nan, c), np)
    return SymBool(z_and(z_not(nan), c), np)


def floor_z(v):
    x = numval(v)
    if x is not None:
        return zint(x.numerator // x.denominator)
    if z3.is_int(v):
        return v
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    return z3.ToInt(v)


def ceil_z(v):
    return z_neg(floor_z(z_neg(v)))


def trunc_z(v):
    if z3.is_int(v):
        return v
    x = numval(v)
    if x is not None:
        return zint(int(x))
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    if ENG.active and ENG.entails(v >= 0):
        return floor_z(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def z_div(a, b):
    """Real division, b != 0 handled by the caller."""
    x, y = numval(a), numval(b)
    if y is not None and y != 0:
        if x is not None:
            return zreal(x / y)
        return z_mul(a, zreal(1 / y))
    if x == 0:
        return a
    if a.eq(b):
        return z_ite(z_cmp('==', b, zreal(0)), a / b, zreal(1))
    return a / b


def z_powi(v, k):
    if k == 0:
        return zreal(1) if z3.is_real(v) else zint(1)
    r = v
    for _ in range(k - 1):
        r = z_mul(r, v)
    return r


def sym_sqrt(v):
    x = numval(v)
    if x is not None and x >= 0:
        from math import isqrt
        p, q = isqrt(x.numerator), isqrt(x.denominator)
        if p * p == x.numerator and q * q == x.denominator:
            return zreal(Fraction(p, q))
    return SQRT(v)


def binop(op, a, b, npmode=None):
    """numpy/python scalar arithmetic.  npmode: True -> no ZeroDivisionError."""
    if is_inf(a) or is_inf(b):
        ENG.abort(Unsupported('arithmetic with infinity'))
    x, y = num(a), num(b)
    if x is None or y is None:
        return NotImplemented
    np = npmode if npmode is not None else (x.np or y.np)
    ints = isinstance(x, SymInt) and isinstance(y, SymInt)
    if op in '+-*':
        f = {'+': z_add, '-': z_sub, '*': z_mul}[op]
        if ints:
            return SymInt(f(x.z, y.z), np)
        (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
        return SymReal(f(xv, yv), n_or(xn, yn), np)
    if op == '**':
        k = numval(y.z)
        if k is not None and k.denominator == 1 and (not isinstance(y, SymReal) or y.n is False):
            k = int(k)
            if ints and k >= 0 and k <= 8:
                return SymInt(z_powi(x.z, k), np)
            (xv, xn) = _real_parts(x)
            if 0 <= k <= 8:
                return SymReal(z_powi(xv, k), xn if k else False, np)
            if -8 <= k < 0:
                if not np and ENG.decide(z_cmp('==', xv, zreal(0))):
                    raise ZeroDivisionError()
                return SymReal(z_div(zreal(1), z_powi(xv, -k)), xn, np)
        (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
        if k is not None and k == Fraction(1, 2):
            return SymReal(sym_sqrt(xv), n_or(xn, z_cmp('<', xv, zreal(0))), np)
        if k is not None and k == Fraction(-1, 2):
            return SymReal(z_div(zreal(1), sym_sqrt(xv)), n_or(xn, z_cmp('<', xv, zreal(0))), np)
        isint = z3.IsInt(yv)
        kk = numval(yv)
        if kk is not None:
            isint = z3.BoolVal(kk.denominator == 1)
        return SymReal(POW(xv, yv), n_or(n_or(xn, yn), z_and(z_cmp('<', xv, zreal(0)), z_not(isint))), np)
    # division family
    if ints:
        yz = y.z
        zero = z_cmp('==', yz, zint(0))
    else:
        (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
        zero = z_cmp('==', yv, zreal(0))
    if not np and not is_f(zero):
        if ENG.decide(zero):
            raise ZeroDivisionError()
        zero = FALSE
    if op == '/':
        (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
        # x/0 with x != 0 is an infinity, modelled as an unspecified real; 0/0 is NaN
        nan = z_or(zb(xn), zb(yn), z_and(zero, z_cmp('==', xv, zreal(0))))
        return SymReal(z_div(xv, yv), nan, np)
    if ints:
        if op == '//':
            return SymInt(int_floordiv(x.z, y.z), np)
        return SymInt(z_sub(x.z, z_mul(y.z, int_floordiv(x.z, y.z))) if numval(y.z) is None else int_mod(x.z, y.z), np)
    nan = z_or(zb(xn), zb(yn), zero)
    q = z_toreal(floor_z(z_div(xv, yv)))
    if op == '//':
        return SymReal(q, nan, np)
    if z3.is_app_of(xv, z3.Z3_OP_TO_REAL) and numval(yv) is not None and numval(yv).denominator == 1:
        return SymReal(z_toreal(int_mod(xv.arg(0), zint(numval(yv)))), nan, np)
    return SymReal(z_sub(xv, z_mul(yv, q)), nan, np)


def int_mod(a, b):
    k = numval(b)
    x = numval(a)
    if x is not None:
        return zint(int(x) % int(k))
    if k > 0:
        return a % b
    return -((-a) % (-b))


def int_floordiv(a, b):
    x, k = numval(a), numval(b)
    if k is not None:
        if x is not None:
            return zint(int(x) // int(k))
        if k > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def ite(c, a, b):
    """Select between scalars (values of any kind)."""
    if isinstance(c, SymBool):
        c = c.z
    c = zb(c)
    if is_t(c):
        return a
    if is_f(c):
        return b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        a, b = mk_np(a), mk_np(b)
        return SymBool(z_ite(c, a.z, b.z))
    x, y = num(a), num(b)
    if x is None or y is None:
        unsupported('conditional over non numeric values')
    if isinstance(x, SymInt) and isinstance(y, SymInt):
        return SymInt(z_ite(c, x.z, y.z), True)
    (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
    # a NaN's numeric part is irrelevant: keep the other branch's value
    if is_t(zb(xn)) and not is_t(zb(yn)):
        return SymReal(yv, z_or(c, zb(yn)), True)
    if is_t(zb(yn)) and not is_t(zb(xn)):
        return SymReal(xv, z_or(z_not(c), zb(xn)), True)
    return SymReal(z_ite(c, xv, yv), n_or(False, z_ite(c, zb(xn), zb(yn))), True)


def same(a, b):
    """Exact equality of two scalars, NaN == NaN; a z3 Bool."""
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return z3.simplify(mk_np(a).z == mk_np(b).z)
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return zb(a == b)
        return FALSE
    x, y = num(a), num(b)
    if isinstance(x, SymInt) and isinstance(y, SymInt):
        return z_cmp('==', x.z, y.z)
    (xv, xn), (yv, yn) = _real_parts(x), _real_parts(y)
    xn, yn = zb(xn), zb(yn)
    veq = z_cmp('==', xv, yv)
    if is_f(xn) and is_f(yn):
        return veq
    return z_and(xn == yn if not xn.eq(yn) else TRUE, z_or(xn, veq))


# ---------------------------------------------------------------- discharge
def collect_apps(fs):
    """Ground applications of the axiomatised functions occurring in the formulas."""
    seen, out = set(), []
    names = {'sqrt_', 'cos_', 'sin_', 'exp_', 'pow_', 'arccos_', 'arctan2_', 'log_'}
    nonground = [False]

    def walk(e):
        """returns True if e contains de Bruijn vars"""
        stack = [(e, False)]
        has = {}
        while stack:
            n, done = stack.pop()
            i = n.get_id()
            if i in seen_has and not done:
                continue
            if done:
                h = z3.is_var(n) or any(seen_has.get(c.get_id(), False) for c in n.children())
                if z3.is_quantifier(n):
                    h = seen_has.get(n.body().get_id(), False)
                seen_has[i] = h
                if z3.is_app(n) and n.decl().name() in names:
                    if h:
                        nonground[0] = True
                    else:
                        out.append(n)
                continue
            stack.append((n, True))
            if z3.is_quantifier(n):
                stack.append((n.body(), False))
            else:
                for c in n.children():
                    stack.append((c, False))
    seen_has = {}
    for f in fs:
        walk(f)
    return out, nonground[0]


def function_axioms(fs):
    apps, ng = collect_apps(fs)
    ax = []
    args = {}
    for a in apps:
        nm = a.decl().name()
        t = a.arg(0)
        if nm == 'sqrt_':
            ax.append(z3.Implies(t >= 0, z3.And(a >= 0, a * a == t)))
        elif nm in ('cos_', 'sin_'):
            ax.append(COS(t) * COS(t) + SIN(t) * SIN(t) == 1)
        elif nm == 'exp_':
            ax.append(a > 0)
            ax.append(z3.Implies(t == 0, a == 1))
            ax.append(z3.Implies(t < 0, a < 1))
            ax.append(z3.Implies(t > 0, a > 1))
    if ng:
        x = z3.Real('x!ax')
        ax.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), patterns=[SQRT(x)]))
        ax.append(z3.ForAll([x], COS(x) * COS(x) + SIN(x) * SIN(x) == 1, patterns=[COS(x)]))
    return ax


def has_quant(f, seen=None):
    seen = set() if seen is None else seen
    stack = [f]
    while stack:
        n = stack.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if z3.is_quantifier(n):
            return True
        stack.extend(n.children())
    return False


SOLVER_TIME = {'z3': 0.0, 'cvc5': 0.0}


def prove(pc, goal, ms=10000, use_cvc5=True):
    """Returns ('proved'|'refuted'|'unknown', backend, model-or-None)."""
    g = z3.simplify(goal, elim_and=False)
    if is_t(g):
        return 'proved', 'simplifier', None
    fs = list(pc) + [z3.Not(goal)]
    fs += function_axioms(fs)
    quant = any(has_quant(f) for f in fs)
    t0 = time.time()
    model = None

    def attempt(cfg, ms):
        s = cfg()
        s.set('timeout', int(ms))
        s.add(*fs)
        r = s.check()
        return r, s
    plans = []
    if quant:
        def c1():
            s = z3.Solver()
            s.set('smt.mbqi', False)
            s.set('smt.auto_config', False)
            return s

        def c2():
            return z3.Solver()
        plans = [(c1, ms * 0.3), (c2, ms * 0.5)]
    else:
        def c2():
            return z3.Solver()

        def c3():
            return z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
        plans = [(c2, ms * 0.4), (c3, ms * 0.4)]
    for cfg, t in plans:
        try:
            r, s = attempt(cfg, t)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            SOLVER_TIME['z3'] += time.time() - t0
            return 'proved', 'z3', None
        if r == z3.sat:
            SOLVER_TIME['z3'] += time.time() - t0
            try:
                return 'refuted', 'z3', s.model()
            except z3.Z3Exception:
                return 'unknown', 'z3', None
    SOLVER_TIME['z3'] += time.time() - t0
    if use_cvc5:
        t1 = time.time()
        r = run_cvc5(fs, ms)
        SOLVER_TIME['cvc5'] += time.time() - t1
        if r == 'unsat':
            return 'proved', 'cvc5', None
    return 'unknown', 'z3+cvc5', None


def run_cvc5(fs, ms):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt.replace('(check-sat)', '') + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(ms), '--nl-ext-tplanes', '--full-saturate-quant', name],
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)
