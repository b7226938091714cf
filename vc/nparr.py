"""Symbolic numpy: the array theory the verified code runs on.

Arrays are (storage, view) pairs.  A storage is a mutable function from index tuples to scalars, views are
affine index maps, so aliasing and write-through behave as in numpy.  Dimensions may be symbolic.
"""
import itertools
import math
import types
from fractions import Fraction

import z3

from .core import (ENG, Unsupported, SymBool, SymInt, SymReal, Sym, TRUE, FALSE, INF, zb, zint, zreal, z_and, z_or,
                   z_not, z_imp, z_ite, z_add, z_sub, z_mul, z_neg, z_cmp, z_toreal, numval, num, mk_np, ite, same,
                   binop, compare, is_t, is_f, is_inf, unsupported, trunc_z, floor_z, ceil_z, sym_sqrt, z_abs, z_div,
                   COS, SIN, EXP, LOG, ARCCOS, ARCTAN, ARCTAN2, POW)

EXPAND = 200


# ------------------------------------------------------------------ dtypes
class generic:
    pass


class number(generic):
    pass


class integer(number):
    pass


class floating(number):
    pass


def _mk_scalar_type(name, base, conv):
    def __new__(cls, x=0):
        return conv(x)
    return type(name, (base,), {'__new__': __new__})


class vint_meta(type):
    def __instancecheck__(cls, o):
        return v_isinstance(o, cls)


def to_int(x):
    if isinstance(x, SymArr):
        x = x.item_scalar()
    if isinstance(x, SymBool):
        return x._i().py()
    if isinstance(x, SymInt):
        return x.py()
    if isinstance(x, SymReal):
        if x.n is not False and ENG.decide(zb(x.n)):
            raise ValueError('cannot convert float NaN to integer')
        return SymInt(trunc_z(x.v), False).py()
    return int(x)


def to_float(x):
    if isinstance(x, SymArr):
        x = x.item_scalar()
    if isinstance(x, (SymBool, SymInt)):
        x = num(x)
        return SymReal(z_toreal(x.z), False, False)
    if isinstance(x, SymReal):
        return x.py()
    return float(x)


def to_bool(x):
    if isinstance(x, SymArr):
        x = x.item_scalar()
    if isinstance(x, SymBool):
        return SymBool(x.z, False)
    if isinstance(x, SymInt):
        return SymBool(z_cmp('!=', x.z, zint(0)), False)
    if isinstance(x, SymReal):
        return SymBool(z_or(zb(x.n), z_cmp('!=', x.v, zreal(0))), False)
    return bool(x)


class vint(metaclass=vint_meta):
    def __new__(cls, x=0, *a):
        if a:
            return int(x, *a)
        return to_int(x)
    __name__ = 'int'


class vfloat(metaclass=vint_meta):
    def __new__(cls, x=0.0):
        return to_float(x)


class vbool(metaclass=vint_meta):
    def __new__(cls, x=False):
        r = to_bool(x)
        return r


class vcomplex(metaclass=vint_meta):
    def __new__(cls, *a):
        unsupported('complex numbers')


bool_ = _mk_scalar_type('bool_', generic, lambda x: mk_np(to_bool(x)))
int64 = _mk_scalar_type('int64', integer, lambda x: mk_np(to_int(x)))
int32 = _mk_scalar_type('int32', integer, lambda x: mk_np(to_int(x)))
int16 = _mk_scalar_type('int16', integer, lambda x: mk_np(to_int(x)))
int8 = _mk_scalar_type('int8', integer, lambda x: mk_np(to_int(x)))
uint8 = _mk_scalar_type('uint8', integer, lambda x: mk_np(to_int(x)))
uint = _mk_scalar_type('uint', integer, lambda x: mk_np(to_int(x)))
float64 = _mk_scalar_type('float64', floating, lambda x: mk_np(to_float(x)))
float32 = _mk_scalar_type('float32', floating, lambda x: mk_np(to_float(x)))
float16 = _mk_scalar_type('float16', floating, lambda x: mk_np(to_float(x)))


class DType:
    def __init__(self, k):
        self.k = k
        self.kind = {'f': 'f', 'i': 'i', 'b': 'b', 'O': 'O'}[k]
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[k]

    def __eq__(self, o):
        try:
            return dtk(o) == self.k
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'dtype(%s)' % self.name


def dtk(d):
    if isinstance(d, DType):
        return d.k
    if d in (float, vfloat, float64, 'float', 'f', 'float64', float32, float16):
        return 'f'
    if d in (int, vint, int64, int32, 'int', 'i', int8, int16):
        return 'i'
    if d in (bool, vbool, bool_, 'bool', 'b'):
        return 'b'
    if d is object or d == 'O':
        return 'O'
    unsupported('dtype %r' % (d,))


def sk(x):
    """dtype kind of a scalar"""
    if isinstance(x, (bool, SymBool)):
        return 'b'
    if isinstance(x, (int, SymInt)):
        return 'i'
    if isinstance(x, (float, SymReal, Fraction)):
        return 'f'
    return 'O'


def join_k(*ks):
    if 'O' in ks:
        return 'O'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


def cast(x, k):
    s = sk(x)
    if s == k:
        return mk_np(x) if k != 'O' else x
    if k == 'O':
        return x
    if s == 'O':
        raise TypeError('cannot convert object to %s' % k)
    if k == 'f':
        x = num(x)
        return SymReal(z_toreal(x.z), False, True)
    if k == 'i':
        x = num(x)
        if isinstance(x, SymInt):
            return mk_np(x)
        return SymInt(trunc_z(x.v), True)   # NaN -> unspecified
    if k == 'b':
        return mk_np(to_bool(x))


# ------------------------------------------------------------------ dims
def zdim(d):
    if isinstance(d, SymInt):
        return d.z
    if isinstance(d, int):
        return zint(d)
    if isinstance(d, (SymReal, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if z3.is_expr(d):
        return d
    raise TypeError('bad dimension %r' % (d,))


def pydim(z):
    v = numval(z)
    return int(v) if v is not None else SymInt(z, False)


def cdims(dims):
    """Concrete dims as ints or None."""
    out = []
    for d in dims:
        v = numval(d)
        if v is None:
            return None
        out.append(int(v))
    return out


def in_range(idx, dims):
    return z_and(*[z_and(z_cmp('>=', i, zint(0)), z_cmp('<', i, d)) for i, d in zip(idx, dims)])


def fresh_int(base='k'):
    return z3.Int(ENG.fresh(base))


def small(dims):
    c = cdims(dims)
    if c is None:
        return None
    p = 1
    for x in c:
        p *= max(x, 0)
    return c if p <= EXPAND else None


def no_int_unknown(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return True
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort():
        return False
    if z3.is_quantifier(e) or (z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return False
    return all(no_int_unknown(x, seen) for x in e.children())


def pin(dims):
    """Lengths that are sums of conditions on the data of arrays of concrete size: fork on their values."""
    if cdims(dims) is not None:
        return dims
    out = []
    for d in dims:
        if not isinstance(d, int) and numval(d) is None and no_int_unknown(d):
            d = zint(ENG.concretize(d))
        out.append(d)
    return tuple(out)


def each(c):
    for t in itertools.product(*[range(x) for x in c]):
        yield tuple(zint(i) for i in t)


def q_forall(dims, body, guard=None):
    c = small(dims)
    if c is not None:
        return z_and(*[(z_imp(guard(i), body(i)) if guard else body(i)) for i in each(c)])
    vs = [fresh_int() for _ in dims]
    b = body(tuple(vs))
    if is_t(b):
        return TRUE
    g = in_range(vs, dims)
    if guard:
        g = z_and(g, guard(tuple(vs)))
    r = z_imp(g, b)
    return r if is_t(r) else z3.ForAll(vs, r)


def q_exists(dims, body):
    return z_not(q_forall(dims, lambda i: z_not(body(i))))


# ------------------------------------------------------------------ storage and views
class Fn:
    """Memoised element function; immutable."""
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __call__(self, idx):
        k = tuple(i.get_id() for i in idx)
        r = self.memo.get(k)
        if r is None:
            v = self.f(idx)
            self.memo[k] = (v, idx)
            return v
        return r[0]


class Storage:
    __slots__ = ('_fn', 'dims', 'k', 'last', 'tag', 'shared', 'stale')

    def __init__(self, fn, dims, k):
        self._fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.dims = tuple(dims)
        self.k = k
        self.last = None
        self.tag = None
        self.shared = []
        self.stale = False

    @property
    def fn(self):
        if self.stale:
            unsupported('reading an array after a write through a reshaped view of it')
        return self._fn

    @fn.setter
    def fn(self, f):
        for o in self.shared:
            o.stale = True
        self._fn = f

    def share(self, o):
        """numpy would let the two share memory (reshape): a write to one makes the other unreadable here."""
        if o is not self:
            self.shared.append(o)
            o.shared.append(self)


def ident_map(nd):
    return tuple(('d', i, None, 1) for i in range(nd))


class SymArr:
    __array_priority__ = 1e5
    __slots__ = ('st', 'dims', 'vm', '__weakref__')

    def __init__(self, st, dims=None, vm=None):
        self.st = st
        self.dims = tuple(dims) if dims is not None else st.dims
        self.vm = vm if vm is not None else ident_map(len(self.dims))

    # -- construction helpers
    @staticmethod
    def make(fn, dims, k):
        return SymArr(Storage(fn, [zdim(d) for d in dims], k))

    # -- basic attributes
    @property
    def shape(self):
        return tuple(pydim(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def k(self):
        return self.st.k

    @property
    def dtype(self):
        return DType(self.st.k)

    @property
    def size(self):
        r = zint(1)
        for d in self.dims:
            r = z_mul(r, d)
        return pydim(r)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.flatten()

    @property
    def real(self):
        return self

    @property
    def base(self):
        return None if self.is_whole() else self.st

    def __len__(self):
        v = numval(self.dims[0])
        if v is None:
            unsupported('native len() of a symbolic array')
        return int(v)

    def vlen(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        return pydim(self.dims[0])

    def is_whole(self):
        return (len(self.dims) == len(self.st.dims) and self.vm == ident_map(len(self.dims))
                and all(a.eq(b) for a, b in zip(self.dims, self.st.dims)))

    # -- element access (no bounds check)
    def smap(self, idx):
        out = []
        for m in self.vm:
            if m[0] == 'f':
                out.append(m[1])
            else:
                _, kk, off, step = m
                e = idx[kk]
                if step == -1:
                    e = z_sub(off, e)
                else:
                    if step != 1:
                        e = z_mul(zint(step), e)
                    if off is not None:
                        e = z_add(off, e)
                out.append(e)
        return tuple(out)

    def reader(self):
        fn = self.st.fn
        if self.is_whole():
            return fn
        sm = self.smap
        return Fn(lambda idx: fn(sm(idx)))

    def at(self, *idx):
        return self.st.fn(self.smap(tuple(zdim(i) for i in idx)))

    def item_scalar(self):
        if len(self.dims) == 0:
            return self.at()
        for d in self.dims:
            if not ENG.decide(z_cmp('==', d, zint(1))):
                raise TypeError('only size-1 arrays can be converted to Python scalars')
        return self.at(*[0] * len(self.dims))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]].py()
        r = self.item_scalar()
        return r.py() if hasattr(r, 'py') else r.item()

    def __deepcopy__(self, memo):
        if self.k == 'O' and self.ndim == 1:
            import copy as cp
            return obj_array([cp.deepcopy(x, memo) for x in self])
        return self.copy()

    def copy(self, order='C'):
        if self.k == 'O' and self.ndim == 1:
            return obj_array(list(self))
        return SymArr(Storage(self.reader(), self.dims, self.k))

    __copy__ = copy

    def astype(self, dtype=None, **kw):
        return array(self, dtype=dtype)

    def __bool__(self):
        if all(numval(d) == 1 for d in self.dims):
            return bool(self.item_scalar())
        if len(self.dims) == 1 and numval(self.dims[0]) == 0:
            return False
        for d in self.dims:
            if not ENG.decide(z_cmp('==', d, zint(1))):
                raise ValueError('The truth value of an array with more than one element is ambiguous. '
                                 'Use a.any() or a.all()')
        return bool(self.item_scalar())

    def __hash__(self):
        raise TypeError('unhashable type: numpy.ndarray')

    def __str__(self):
        return '<symarr>'

    __repr__ = __str__

    def __format__(self, s):
        return '<symarr>'

    def __iter__(self):
        if not self.dims:
            raise TypeError('iteration over a 0-d array')
        v = numval(self.dims[0])
        if v is None:
            v = numval(z3.simplify(self.dims[0]))
        if v is None:
            unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in range(int(v))])

    def __contains__(self, x):
        r = self.reader()
        x = mk_np(x)
        return ENG.decide(q_exists(self.dims, lambda i: compare('==', r(i), x).z))

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArr) else x.py() if hasattr(x, 'py') else x for x in self]

    # -- indexing
    def _norm_index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            fill = len(self.dims) - (len(key) - 1)
            key[p:p + 1] = [slice(None)] * fill
        return key

    def __getitem__(self, key):
        ENG.poll()
        if isinstance(key, (SymArr, SelArr)) and key.k == 'b' or (isinstance(key, list) and key and all(isinstance(x, (bool, SymBool)) for x in key)):
            if isinstance(key, list):
                key = array(key)
            return mask_get(self, key)
        if isinstance(key, SelArr):
            key = key.mat()
        keys = self._norm_index(key)
        nb = sum(1 for k in keys if k is not None)
        extra = 0
        for k in keys:
            if isinstance(k, SymArr) and k.k == 'b':
                extra += k.ndim - 1
        if nb + extra > len(self.dims):
            raise IndexError('too many indices for array')
        if any(isinstance(k, (SymArr, list, SelArr)) or (isinstance(k, tuple)) for k in keys):
            return self._fancy_get(keys)
        if any(k is None for k in keys):
            return self._newaxis_get(keys)
        dims, vm_new, pos = [], {}, 0
        vmap = []
        for k in keys:
            if k is None:
                unsupported('newaxis')
            d = self.dims[pos]
            if isinstance(k, slice):
                off, n, step = norm_slice(k, d)
                vmap.append(('s', off, step))
                dims.append(n)
            else:
                i = norm_int_index(k, d)
                vmap.append(('i', i))
            pos += 1
        while pos < len(self.dims):
            vmap.append(('s', zint(0), 1))
            dims.append(self.dims[pos])
            pos += 1
        # new position of each kept dim
        newk, c = [], 0
        for m in vmap:
            if m[0] == 's':
                newk.append(c)
                c += 1
            else:
                newk.append(None)
        out = []
        for m in self.vm:
            if m[0] == 'f':
                out.append(m)
                continue
            _, kk, off, step = m
            sub = vmap[kk]
            o = off if off is not None else zint(0)
            if sub[0] == 'i':
                e = z_add(o, z_mul(zint(step), sub[1]))
                out.append(('f', e))
            else:
                e = z_add(o, z_mul(zint(step), sub[1]))
                st = step * sub[2]
                if st == 1 and numval(e) == 0:
                    e = None
                out.append(('d', newk[kk], e, st))
        if not dims:
            return self.st.fn(tuple(m[1] for m in out))
        return SymArr(self.st, dims, tuple(out))

    def _newaxis_get(self, keys):
        r = self[tuple(k for k in keys if k is not None)]
        if not isinstance(r, SymArr):
            r = asarray(r)
        dims, kept, src = [], [], list(r.dims)
        for k in keys:
            if k is None:
                dims.append(zint(1))
            elif isinstance(k, slice):
                kept.append(len(dims))
                dims.append(src.pop(0))
        for d in src:
            kept.append(len(dims))
            dims.append(d)
        vm = tuple(m if m[0] == 'f' else ('d', kept[m[1]], m[2], m[3]) for m in r.vm)
        return SymArr(r.st, dims, vm)

    def _fancy_get(self, keys):
        # boolean 1-D masks become materialised index arrays
        ks = []
        for k in keys:
            if isinstance(k, SelArr):
                k = k.mat()
            if isinstance(k, (list, tuple)):
                k = array(list(k))
            if isinstance(k, SymArr) and k.k == 'b':
                if k.ndim != 1:
                    unsupported('mixed n-d boolean index')
                k = where_idx(k)[0]
            if isinstance(k, SymArr):
                if k.ndim == 0:
                    k = k.item_scalar()
                elif k.k != 'i':
                    if numval(k.dims[0]) == 0:
                        k = SymArr(Storage(lambda i: SymInt(zint(0), True), k.dims, 'i'))
                    else:
                        raise IndexError('arrays used as indices must be of integer (or boolean) type')
            ks.append(k)
        while len(ks) < len(self.dims):
            ks.append(slice(None))
        arrs = [k for k in ks if isinstance(k, SymArr)]
        if any(not isinstance(k, (SymArr, slice)) for k in ks) and len(arrs) >= 1:
            # ints are broadcast with the arrays
            ks = [k if isinstance(k, (SymArr, slice)) else SymArr(Storage(
                (lambda z: (lambda i: SymInt(z, True)))(num(k).z), arrs[0].dims, 'i')) for k in ks]
            arrs = [k for k in ks if isinstance(k, SymArr)]
        bd = broadcast_dims(*[a.dims for a in arrs])
        # bounds
        readers = {}
        for p, k in enumerate(ks):
            if isinstance(k, SymArr):
                r, kd, d = k.reader(), k.dims, self.dims[p]
                ok = q_forall(kd, lambda i: z_and(z_cmp('>=', r(i).z, z_neg(d)), z_cmp('<', r(i).z, d)))
                if not ENG.decide(ok):
                    raise IndexError('index out of bounds')
                neg = not ENG.entails(q_forall(kd, lambda i: z_cmp('>=', r(i).z, zint(0))))
                readers[p] = (breader(k, bd), d, neg)
        firstp = min(readers)
        consecutive = sorted(readers) == list(range(firstp, firstp + len(readers)))
        sl = {}
        dims = []
        nb = len(bd)
        base_r = self.reader()
        order = []     # how to build
        if not consecutive:
            dims = list(bd)
            posd = nb
            for p, k in enumerate(ks):
                if p not in readers:
                    off, n, step = norm_slice(k, self.dims[p])
                    sl[p] = (off, step, posd)
                    dims.append(n)
                    posd += 1
            bpos = 0
        else:
            posd = 0
            bpos = None
            for p, k in enumerate(ks):
                if p in readers:
                    if bpos is None:
                        bpos = posd
                        dims += list(bd)
                        posd += nb
                else:
                    off, n, step = norm_slice(k, self.dims[p])
                    sl[p] = (off, step, posd)
                    dims.append(n)
                    posd += 1
        nd = len(self.dims)

        def fn(idx):
            full = []
            bi = idx[bpos:bpos + nb]
            for p in range(nd):
                if p in readers:
                    r, d, neg = readers[p]
                    e = r(bi).z
                    if neg:
                        e = z_ite(z_cmp('<', e, zint(0)), z_add(e, d), e)
                    full.append(e)
                else:
                    off, step, q = sl[p]
                    full.append(z_add(off, z_mul(zint(step), idx[q])))
            return base_r(tuple(full))
        return SymArr(Storage(fn, dims, self.k))

    def __setitem__(self, key, val):
        ENG.poll()
        if isinstance(key, (SymArr, SelArr)) and key.k == 'b' or (isinstance(key, list) and key and all(isinstance(x, (bool, SymBool)) for x in key)):
            if isinstance(key, list):
                key = array(key)
            return mask_set(self, key, val)
        keys = self._norm_index(key)
        if any(isinstance(k, (SymArr, list)) for k in keys):
            if len(keys) == 1 or all(isinstance(k, (SymArr, list)) for k in keys):
                return self._fancy_set(keys, val)
            unsupported('fancy assignment')
        if self.k == 'O':
            c = cdims(self.dims)
            if len(keys) == 1 and not isinstance(keys[0], slice) and c is not None:
                i = num(keys[0])
                i = ENG.concretize(i.z)
                if i < 0:
                    i += c[0]
                old = self.st.fn
                j = i
                self.st.fn = Fn(lambda idx: val if int(numval(idx[0])) == j else old(idx))
                return
            unsupported('object array assignment')
        # scalar target?
        if len([k for k in keys if not isinstance(k, slice)]) == len(self.dims):
            idx = tuple(norm_int_index(k, d) for k, d in zip(keys, self.dims))
            if isinstance(val, (SymArr, SelArr)):
                if isinstance(val, SelArr):
                    val = val.mat()
                val = val.item_scalar()
            if isinstance(val, (list, tuple)):
                raise ValueError('setting an array element with a sequence.')
            v = cast_store(val, self.k)
            tgt = self.smap(idx)
            old = self.st.fn
            self.st.fn = Fn(lambda i: ite(z_and(*[z_cmp('==', a, b) for a, b in zip(i, tgt)]), v, old(i)))
            self.st.last = None
            return
        view = self[key]
        view.assign(val)

    def _fancy_set(self, keys, val):
        ks = [array(k) if isinstance(k, list) else k for k in keys]
        c = [cdims(k.dims) for k in ks]
        if any(x is None for x in c):
            unsupported('fancy assignment with symbolic length')
        n = c[0][0]
        vals = None
        if isinstance(val, (SymArr, list, tuple)):
            vals = [v for v in (val if isinstance(val, SymArr) else array(val))]
            if len(vals) == 1:
                vals = vals * n
        for i in range(n):
            kk = tuple(k[i] for k in ks)
            self[kk if len(kk) > 1 else kk[0]] = vals[i] if vals is not None else val

    def assign(self, val):
        """self[...] = val (broadcast)."""
        if isinstance(val, SelArr):
            val = val.mat()
        if isinstance(val, (list, tuple)):
            val = array(val)
        if isinstance(val, SymArr):
            vd = val.dims
            while len(vd) > len(self.dims):
                if numval(vd[0]) != 1:
                    raise ValueError('could not broadcast input array')
                val = val[0]
                vd = val.dims
            r = breader(val, self.dims, check=True)
        else:
            v = cast_store(val, self.k)
            r = lambda i: v
        k = self.k
        rr = lambda i: cast(r(i), k)
        if self.is_whole():
            self.st.fn = Fn(rr)
            self.st.last = None
            return
        inv = self.inv
        old = self.st.fn
        self.st.fn = Fn(lambda s: (lambda c, vi: ite(c, rr(vi), old(s)) if not is_f(c) else old(s))(*inv(s)))
        self.st.last = None

    def inv(self, s):
        """storage index -> (in view?, view index)"""
        conds = []
        vi = [None] * len(self.dims)
        for m, e in zip(self.vm, s):
            if m[0] == 'f':
                conds.append(z_cmp('==', e, m[1]))
            else:
                _, kk, off, step = m
                o = off if off is not None else zint(0)
                if step == 1:
                    v = z_sub(e, o)
                elif step == -1:
                    v = z_sub(o, e)
                else:
                    dlt = z_sub(e, o) if step > 0 else z_sub(o, e)
                    a = abs(step)
                    dv = numval(dlt)
                    if dv is not None:
                        if dv % a != 0:
                            return FALSE, tuple(zint(0) for _ in vi)
                        v = zint(dv // a)
                    else:
                        conds.append(dlt % a == 0)
                        v = dlt / a
                vi[kk] = v
                conds.append(z_and(z_cmp('>=', v, zint(0)), z_cmp('<', v, self.dims[kk])))
        return z_and(*conds), tuple(vi)

    def fill(self, v):
        self.assign(v)

    # -- shape changes
    def transpose(self, *axes):
        nd = len(self.dims)
        if axes and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        perm = list(axes) if axes else list(range(nd))[::-1]
        invp = {p: i for i, p in enumerate(perm)}
        vm = tuple(m if m[0] == 'f' else ('d', invp[m[1]], m[2], m[3]) for m in self.vm)
        return SymArr(self.st, [self.dims[p] for p in perm], vm)

    def flatten(self, order='C'):
        return self.reshape((-1,)).copy() if len(self.dims) != 1 else self.copy()

    def ravel(self):
        return self.reshape((-1,)) if len(self.dims) != 1 else self

    def reshape(self, *shape):
        res = self._reshape(*shape)
        self.st.share(res.st)
        return res

    def _reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        c = cdims(self.dims)
        r = self.reader()
        nd = len(self.dims)
        tot = zint(1)
        for d in self.dims:
            tot = z_mul(tot, d)
        if -1 in [s for s in shape if isinstance(s, int)]:
            if len(shape) == 1:
                shape = (pydim(tot),)
            else:
                rest = zint(1)
                for s in shape:
                    if not (isinstance(s, int) and s == -1):
                        rest = z_mul(rest, zdim(s))
                if numval(tot) is None or numval(rest) is None:
                    unsupported('reshape -1 with symbolic size')
                shape = tuple(pydim(zint(numval(tot) // numval(rest))) if (isinstance(s, int) and s == -1) else s for s in shape)
        nz = [zdim(s) for s in shape]
        ntot = zint(1)
        for d in nz:
            ntot = z_mul(ntot, d)
        if not ENG.decide(z_cmp('==', ntot, tot)):
            raise ValueError('cannot reshape array')
        if len(nz) == nd and all(a.eq(b) for a, b in zip(nz, self.dims)):
            return self[...]
        if nd == 2 and len(nz) == 1:
            n1 = self.dims[1]

            def fn(i):
                a = numval(i[0])
                b = numval(n1)
                if a is not None and b is not None:
                    return r((zint(a // b), zint(a % b)))
                return r((i[0] / n1, i[0] % n1))
            res = SymArr(Storage(fn, nz, self.k))
            res.st.tag = ('flat2', self)
            return res
        if nd == 1 and len(nz) == 2:
            n1 = nz[1]
            tag = self.st.tag
            if tag is not None and tag[0] == 'flat2' and all(a.eq(b) for a, b in zip(tag[1].dims, nz)):
                return tag[1].copy()
            return SymArr(Storage(lambda i: r((z_add(z_mul(i[0], n1), i[1]),)), nz, self.k))
        if c is not None and cdims(nz) is not None:
            nc = cdims(nz)

            def fn2(i):
                if any(numval(x) is None for x in i):
                    unsupported('symbolic index in reshaped array')
                lin = 0
                for x, d in zip(i, nc):
                    lin = lin * d + int(numval(x))
                full = []
                for d in reversed(c):
                    full.append(lin % d)
                    lin //= d
                return r(tuple(zint(q) for q in reversed(full)))
            return SymArr(Storage(fn2, nz, self.k))
        unsupported('reshape')

    def squeeze(self, axis=None):
        key = tuple(0 if numval(d) == 1 else slice(None) for d in self.dims)
        return self[key]

    # -- arithmetic
    def __neg__(self):
        if self.k == 'b':
            raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
        return ew(lambda a: -a, self)

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.k == 'b':
            return ew(lambda a: SymBool(z_not(a.z)), self, k='b')
        if self.k == 'i':
            return ew(lambda a: -a - 1, self, k='i')
        raise TypeError("ufunc 'invert' not supported for the input types")


class FlatIter:
    pass


def cast_store(v, k):
    if k == 'O':
        return v
    if is_inf(v):
        unsupported('storing infinity')
    if isinstance(v, SymArr):
        v = v.item_scalar()
    if k == 'i' and isinstance(v, float) and v != v:
        raise ValueError('cannot convert float NaN to integer')
    if sk(v) == 'O':
        if isinstance(v, str):
            raise ValueError('could not convert string to float')
        if v is None and k == 'f':
            return SymReal(zreal(0), True, True)
        raise TypeError('float() argument must be a string or a number, not %s' % type(v).__name__)
    return cast(v, k)


def norm_int_index(k, d):
    if isinstance(k, SymArr):
        k = k.item_scalar()
    if isinstance(k, SymBool) or isinstance(k, bool):
        unsupported('boolean scalar index')
    if isinstance(k, (SymReal, float)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    if isinstance(k, int):
        k = SymInt(zint(k), False)
    if not isinstance(k, SymInt):
        raise IndexError('only integers, slices are valid indices')
    z = k.z
    v = numval(z)
    if v is not None:
        if v >= 0:
            if not ENG.decide(z_cmp('<', z, d)):
                raise IndexError('index out of bounds')
            return z
        if not ENG.decide(z_cmp('>=', z_add(d, z), zint(0))):
            raise IndexError('index out of bounds')
        return z_add(d, z)
    if not ENG.decide(z_and(z_cmp('>=', z, z_neg(d)), z_cmp('<', z, d))):
        raise IndexError('index out of bounds')
    if ENG.decide(z_cmp('>=', z, zint(0))):
        return z
    return z_add(d, z)


def _slice_val(x):
    if x is None:
        return None
    if isinstance(x, SymArr):
        x = x.item_scalar()
    if isinstance(x, (SymReal, float)) or not isinstance(x, (int, SymInt, SymBool)):
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    return num(x).z


def zmin(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return a if x <= y else b
    if ENG.active:
        if ENG.entails(a <= b):
            return a
        if ENG.entails(b <= a):
            return b
    return z3.If(a <= b, a, b)


def zmax(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return a if x >= y else b
    if ENG.active:
        if ENG.entails(a >= b):
            return a
        if ENG.entails(b >= a):
            return b
    return z3.If(a >= b, a, b)


def norm_slice(s, d):
    """-> (offset, length, step) for a dimension d."""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, SymInt):
        step = ENG.concretize(step.z)
    if isinstance(step, (SymReal, float)):
        raise TypeError('slice indices must be integers')
    if step == 0:
        raise ValueError('slice step cannot be zero')
    a, b = _slice_val(s.start), _slice_val(s.stop)
    if step > 0:
        if a is None:
            a = zint(0)
        else:
            a = wrap_idx(a, d)
            a = zmin(a, d)
        if b is None:
            b = d
        else:
            b = wrap_idx(b, d)
            b = zmin(b, d)
        ln = z_sub(b, a)
        if step > 1:
            v = numval(ln)
            if v is not None:
                ln = zint(max(0, -((-int(v)) // step)))
                return a, ln, step
            ln = z3.If(ln <= 0, zint(0), (ln + (step - 1)) / step)
            return a, ln, step
        return a, zmax(ln, zint(0)), 1
    # negative step
    if a is None:
        a = z_sub(d, zint(1))
    else:
        a = zmin(wrap_idx(a, d, low=-1), z_sub(d, zint(1)))
    if b is None:
        b = zint(-1)
    else:
        b = wrap_idx(b, d, low=-1)
    ln = z_sub(a, b)
    st = -step
    if st > 1:
        v = numval(ln)
        if v is not None:
            return a, zint(max(0, -((-int(v)) // st))), step
        return a, z3.If(ln <= 0, zint(0), (ln + (st - 1)) / st), step
    return a, zmax(ln, zint(0)), -1


def wrap_idx(a, d, low=0):
    v = numval(a)
    if v is not None:
        if v >= 0:
            return a
        return zmax(z_add(d, a), zint(low))
    if ENG.entails(a >= 0):
        return a
    if ENG.entails(a < 0):
        return zmax(z_add(d, a), zint(low))
    if ENG.decide(a >= 0):
        return a
    return zmax(z_add(d, a), zint(low))


# ------------------------------------------------------------------ broadcasting, elementwise
def broadcast_dims(*dimss):
    nd = max(len(x) for x in dimss)
    out = []
    for p in range(nd):
        cur = None
        for ds in dimss:
            q = p - (nd - len(ds))
            if q < 0:
                continue
            d = ds[q]
            if cur is None or numval(cur) == 1:
                cur = d if cur is None or numval(d) != 1 else cur
                continue
            if numval(d) == 1 or d.eq(cur):
                continue
            if ENG.decide(z_cmp('==', d, cur)):
                if numval(d) is not None:
                    cur = d
                continue
            if numval(d) is None and ENG.decide(z_cmp('==', d, zint(1))):
                continue
            if numval(cur) is None and ENG.decide(z_cmp('==', cur, zint(1))):
                cur = d
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def breader(a, dims, check=False):
    """Reader of array a broadcast to dims."""
    r = a.reader()
    nd, na = len(dims), len(a.dims)
    if na > nd:
        raise ValueError('could not broadcast input array')
    ones = []
    for p in range(na):
        d, D = a.dims[p], dims[nd - na + p]
        if d.eq(D):
            ones.append(False)
        elif numval(d) == 1:
            ones.append(True)
        elif numval(D) is not None and numval(d) is not None:
            raise ValueError('could not broadcast input array from shape')
        elif check:
            if ENG.decide(z_cmp('==', d, D)):
                ones.append(False)
            elif ENG.decide(z_cmp('==', d, zint(1))):
                ones.append(True)
            else:
                raise ValueError('could not broadcast input array from shape')
        else:
            # after broadcast_dims: equal, or provably one
            ones.append(not ENG.entails(z_cmp('==', d, D)))
    if not any(ones) and na == nd:
        return r
    return lambda idx: r(tuple(zint(0) if o else i for o, i in zip(ones, idx[nd - na:])))


def as_operand(x):
    if isinstance(x, (SymArr, SelArr, MaskedArray)):
        return x
    if isinstance(x, (list, tuple)):
        return array(x)
    return x


def ew(f, *args, k=None):
    """Elementwise application."""
    args = [as_operand(a) for a in args]
    if any(isinstance(a, MaskedArray) for a in args):
        return ma_ew(f, *args, k=k)
    if any(isinstance(a, SelArr) for a in args):
        return sel_ew(f, *args, k=k)
    arrs = [a for a in args if isinstance(a, SymArr)]
    if any(a.k == 'O' for a in arrs):
        return obj_ew(f, *args)
    if not arrs:
        return f(*[mk_np(a) for a in args])
    dims = broadcast_dims(*[a.dims for a in arrs])
    rs = []
    kinds = []
    for a in args:
        if isinstance(a, SymArr):
            rs.append(breader(a, dims))
            kinds.append(a.k)
        else:
            if is_inf(a):
                rs.append((lambda v: (lambda i: v))(a))
                kinds.append('f')
            else:
                s = mk_np(a)
                if sk(s) == 'O':
                    return NotImplemented
                rs.append((lambda v: (lambda i: v))(s))
                kinds.append(sk(s))
    if k is None:
        k = join_k(*kinds)
        if callable(getattr(f, 'kind', None)):
            k = f.kind(kinds)
    if not dims:
        return f(*[r(()) for r in rs])
    return SymArr(Storage(lambda i: f(*[r(i) for r in rs]), dims, k))


def obj_ew(f, *args):
    n = None
    for a in args:
        if isinstance(a, SymArr):
            c = cdims(a.dims)
            if c is None or len(c) != 1:
                unsupported('object array of symbolic size')
            n = c[0]
    cols = [list(a) if isinstance(a, SymArr) else [a] * n for a in args]
    return obj_array([f(*row) for row in zip(*cols)])


def obj_array(lst):
    lst = list(lst)
    return SymArr(Storage(lambda i: lst[int(numval(i[0]))], (zint(len(lst)),), 'O'))


def _opf(op):
    def f(a, b):
        if not isinstance(a, Sym) or not isinstance(b, Sym):
            if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, float) or isinstance(b, float):
                if is_inf(a) or is_inf(b):
                    unsupported('arithmetic with infinity')
            return PYOPS[op](a, b)
        return binop(op, a, b, npmode=True)
    f.kind = lambda ks: 'f' if op == '/' else ('i' if join_k(*ks) == 'b' and op in ('//', '%') else join_k(*ks))
    return f


import operator as _operator
PYOPS = {'+': _operator.add, '-': _operator.sub, '*': _operator.mul, '/': _operator.truediv,
         '//': _operator.floordiv, '%': _operator.mod, '**': _operator.pow}


def arr_binop(op, a, b):
    a, b = as_operand(a), as_operand(b)
    for x in (a, b):
        if not isinstance(x, (SymArr, SelArr, MaskedArray, Sym, int, float, Fraction)):
            return NotImplemented
    ka = a.k if hasattr(a, 'k') else sk(a)
    kb = b.k if hasattr(b, 'k') else sk(b)
    if ka == 'b' and kb == 'b':
        if op == '-':
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
        if op == '+':
            return ew(lambda x, y: SymBool(z_or(x.z, y.z)), a, b, k='b')
        if op == '*':
            return ew(lambda x, y: SymBool(z_and(x.z, y.z)), a, b, k='b')
    if op == '**' and join_k(ka, kb) == 'i':
        if isinstance(b, int) and b < 0:
            raise ValueError('Integers to negative integer powers are not allowed.')
    return ew(_opf(op), a, b)


def arr_cmp(op, a, b):
    if isinstance(b, str) or b is None:
        if op == '==':
            return False
        if op == '!=':
            return True
    a, b = as_operand(a), as_operand(b)
    if not isinstance(b, (SymArr, SelArr, MaskedArray, Sym, int, float, Fraction)):
        return NotImplemented
    if isinstance(a, SymArr) and isinstance(b, SymArr) and op in ('==', '!='):
        ok = True
        try:
            broadcast_dims(a.dims, b.dims)
        except ValueError:
            return op == '!='
    return ew(lambda x, y: compare(op, x, y), a, b, k='b')


def _install(cls):
    def mk(op):
        return (lambda s, o: arr_binop(op, s, o)), (lambda s, o: arr_binop(op, o, s)), (lambda s, o: inplace(op, s, o))
    for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv'), ('%', 'mod'), ('**', 'pow')):
        f, r, i = mk(op)
        setattr(cls, '__%s__' % nm, f)
        setattr(cls, '__r%s__' % nm, r)
        setattr(cls, '__i%s__' % nm, i)
    for op, nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
        setattr(cls, '__%s__' % nm, (lambda o_: (lambda s, o: arr_cmp(o_, s, o)))(op))
    cls.__and__ = cls.__rand__ = lambda s, o: logical_and(s, o)
    cls.__or__ = cls.__ror__ = lambda s, o: logical_or(s, o)
    cls.__xor__ = lambda s, o: logical_xor(s, o)
    for nm in ('sum', 'mean', 'min', 'max', 'any', 'all', 'std', 'argmin', 'argmax', 'prod', 'cumsum', 'argsort', 'var', 'dot', 'nonzero', 'round'):
        setattr(cls, nm, (lambda n: (lambda s, *a, **k: globals()['np_' + n](s, *a, **k)))(nm))


def inplace(op, a, b):
    if isinstance(a, SelArr):
        return arr_binop(op, a, b)
    r = arr_binop(op, a, b)
    if r is NotImplemented:
        return r
    if isinstance(a, SymArr):
        if isinstance(r, MaskedArray):
            r = r.data
        rank = 'bifO'
        if not isinstance(r, SymArr):
            unsupported('in-place result')
        if rank.index(r.k) > rank.index(a.k) and a.k != 'O':
            raise TypeError('Cannot cast ufunc output to the array dtype with casting rule same_kind')
        if len(r.dims) > len(a.dims):
            raise ValueError('non-broadcastable output operand')
        for d, e in zip(r.dims, a.dims):
            if not d.eq(e) and not ENG.decide(z_cmp('==', d, e)):
                raise ValueError('non-broadcastable output operand')
        a.assign(r)
        return a
    return r


# ------------------------------------------------------------------ mask selections
class SelArr:
    """values[mask] for an n-d mask: elements of vf where mf holds, in C order."""
    __slots__ = ('dims0', 'mf', 'vf', 'k', '_cnt', '_mat')
    __array_priority__ = 1e5
    ndim = 1

    def __init__(self, dims, mf, vf, k):
        self.dims0 = tuple(dims)
        self.mf = mf
        self.vf = vf
        self.k = k
        self._cnt = None
        self._mat = None

    @property
    def dtype(self):
        return DType(self.k)

    @property
    def dims(self):
        return (self.count().z,)

    def count(self):
        if self._cnt is None:
            mf = self.mf
            self._cnt = reg_sum(self.dims0, lambda i: SymInt(z_ite(mf(i), zint(1), zint(0)), True))
        return self._cnt

    @property
    def shape(self):
        return (self.count().py(),)

    @property
    def size(self):
        return self.count().py()

    def vlen(self):
        return self.count().py()

    def __len__(self):
        v = numval(z3.simplify(self.count().z))
        if v is None:
            unsupported('native len of a selection')
        return int(v)

    def copy(self):
        return SelArr(self.dims0, self.mf, self.vf, self.k)

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self):
        return self.copy()

    def reader(self):
        return self.mat().reader()

    def mat(self):
        if self._mat is None:
            mf = self.mf
            m = SymArr(Storage(lambda i: SymBool(mf(i)), self.dims0, 'b'))
            ii = where_idx(m)
            vf = self.vf
            rs = [a.reader() for a in ii]
            self._mat = SymArr(Storage(lambda i: vf(tuple(r(i).z for r in rs)), ii[0].dims, self.k))
        return self._mat

    def __getitem__(self, key):
        if isinstance(key, SelArr) and key.k == 'b' and same_sel(self, key):
            mf, kf = self.mf, key.vf
            return SelArr(self.dims0, Fn(lambda i: z_and(mf(i), kf(i).z)), self.vf, self.k)
        return self.mat()[key]

    def __setitem__(self, key, val):
        self.mat()[key] = val

    def __iter__(self):
        return iter(self.mat())

    def reshape(self, *s):
        return self.mat().reshape(*s)

    def __neg__(self):
        return ew(lambda a: -a, self)

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return ew(lambda a: SymBool(z_not(a.z)), self, k='b')

    def astype(self, d):
        k = dtk(d)
        return ew(lambda a: cast(a, k), self, k=k)

    def tolist(self):
        return self.mat().tolist()

    def at(self, *i):
        return self.mat().at(*i)

    def __hash__(self):
        raise TypeError('unhashable')

    def __bool__(self):
        return bool(self.mat())

    def transpose(self, *a):
        return self
    T = property(lambda s: s)


def same_sel(a, b):
    if a.mf is b.mf:
        return True
    if len(a.dims0) != len(b.dims0):
        return False
    for d, e in zip(a.dims0, b.dims0):
        if not d.eq(e) and not ENG.entails(d == e):
            return False
    return ENG.entails(q_forall(a.dims0, lambda i: z3.simplify(a.mf(i) == b.mf(i))), ms=1000)


def sel_ew(f, *args, k=None):
    sels = [a for a in args if isinstance(a, SelArr)]
    s0 = sels[0]
    if any(isinstance(a, SymArr) and a.ndim > 0 for a in args) or not all(same_sel(s0, s) for s in sels[1:]):
        return ew(f, *[a.mat() if isinstance(a, SelArr) else a for a in args], k=k)
    rs, kinds = [], []
    for a in args:
        if isinstance(a, SelArr):
            rs.append(a.vf)
            kinds.append(a.k)
        else:
            if is_inf(a):
                unsupported('inf in selection op')
            s = mk_np(a)
            rs.append((lambda v: (lambda i: v))(s))
            kinds.append(sk(s))
    if k is None:
        k = join_k(*kinds)
        if callable(getattr(f, 'kind', None)):
            k = f.kind(kinds)
    return SelArr(s0.dims0, s0.mf, Fn(lambda i: f(*[r(i) for r in rs])), k)


_MFN = {}


def vmkey(vm):
    return tuple(('f', m[1].get_id()) if m[0] == 'f' else ('d', m[1], m[2].get_id() if m[2] is not None else None, m[3]) for m in vm)


def mask_fn(m):
    """z3 Bool reader of a boolean array, memoised per (fn, view) so that identity marks equal masks."""
    fn = m.st.fn
    key = (id(fn), vmkey(m.vm), tuple(d.get_id() for d in m.dims))
    hit = _MFN.get(key)
    if hit is not None and hit[0] is fn:
        return hit[1]
    r = m.reader()
    z = Fn(lambda i: r(i).z)
    _MFN[key] = (fn, z, m.dims, m.vm)
    if len(_MFN) > 5000:
        _MFN.clear()
    return z


def mask_get(a, m):
    if isinstance(m, SelArr):
        m = m.mat()
    if m.ndim > a.ndim:
        raise IndexError('too many indices for array')
    if m.ndim == 1 and a.ndim > 1 and numval(m.dims[0]) == 0:
        return SymArr(Storage(a.reader(), (zint(0),) + tuple(a.dims[1:]), a.k))     # numpy accepts an empty mask
    for p in range(m.ndim):
        d, e = m.dims[p], a.dims[p]
        if not d.eq(e) and not ENG.decide(z_cmp('==', d, e)):
            raise IndexError('boolean index did not match indexed array along dimension')
    if a.k == 'O':
        return obj_array([x for x, b in zip(list(a), list(m)) if b])
    if m.ndim == a.ndim:
        return SelArr(a.dims, mask_fn(m), a.reader(), a.k)
    if m.ndim == 1:
        ii = where_idx(m)[0]
        return a[ii]
    unsupported('partial n-d mask index')


def mask_set(a, m, val):
    if isinstance(m, SelArr):
        m = m.mat()
    if m.ndim > a.ndim:
        raise IndexError('too many indices for array')
    for p in range(m.ndim):
        d, e = m.dims[p], a.dims[p]
        if not d.eq(e) and not ENG.decide(z_cmp('==', d, e)):
            raise IndexError('boolean index did not match indexed array along dimension')
    mf = mask_fn(m)
    nm = m.ndim
    if a.k == 'O':
        unsupported('masked assignment to object arrays')
    if isinstance(val, MaskedArray):
        val = val.data
    if isinstance(val, (list, tuple)):
        val = array(val)
    if isinstance(val, SymArr) and val.ndim == 0:
        val = val.item_scalar()
    key = None
    if isinstance(val, SelArr):
        s = SelArr(a.dims, mf, None, a.k)
        if nm == a.ndim and same_sel(val, s):
            vf = val.vf
        else:
            val = val.mat()
    if isinstance(val, SymArr):
        # values in selection order: need the rank function
        if numval(val.dims[0]) == 1 and val.ndim == 1:
            v = cast_store(val[0], a.k)
            vf = lambda i: v
        else:
            ii, rank = where_idx(m, with_rank=True)
            if not ENG.decide(z_cmp('==', ii[0].dims[0], val.dims[0])):
                raise ValueError('NumPy boolean array indexing assignment cannot assign %s input values')
            vr = val.reader()
            if nm == a.ndim:
                vf = lambda i: vr((rank(i),))
            else:
                vf = lambda i: vr((rank(i[:nm]),) + tuple(i[nm:]))
    elif not isinstance(val, SelArr):
        v = cast_store(val, a.k)
        vf = lambda i: v
        key = (id(mf), repr(v), vmkey(a.vm))
    k = a.k
    if key is not None and a.st.last is not None and a.st.last[0] == key:
        return
    old = a.st.fn
    if a.is_whole():
        a.st.fn = Fn(lambda i: ite(mf(i[:nm]), cast(vf(i), k), old(i)))
    else:
        inv = a.inv

        def g(s):
            c, vi = inv(s)
            if is_f(c):
                return old(s)
            return ite(z_and(c, mf(vi[:nm])), cast(vf(vi), k), old(s))
        a.st.fn = Fn(g)
    a.st.last = (key, mf) if key is not None else None


_WIDX = {}


def where_idx(m, with_rank=False):
    """Indices of the true elements of m, in C order (the sorted selection)."""
    c = small(m.dims)
    r = m.reader()
    if c is not None:
        # decide every flag: the selection becomes concrete
        sel = []
        for i in each(c):
            if ENG.decide(r(i).z):
                sel.append(tuple(int(numval(x)) for x in i))
        n = len(sel)
        arrs = []
        for p in range(len(c)):
            col = [t[p] for t in sel]
            arrs.append(from_list([SymInt(zint(x), True) for x in col], (n,), 'i'))
        pos = {t: q for q, t in enumerate(sel)}

        def rank(i):
            key = tuple(int(numval(x)) for x in i) if all(numval(x) is not None for x in i) else None
            if key is not None:
                return zint(pos.get(key, 0))
            e = zint(0)
            for t, q in pos.items():
                e = z_ite(z_and(*[z_cmp('==', x, zint(y)) for x, y in zip(i, t)]), zint(q), e)
            return e
        return (arrs, rank) if with_rank else arrs
    mf = mask_fn(m)
    nd = len(m.dims)
    # selections by the same flags are the same selection
    flags = z3.simplify(mf(tuple(z3.Int('sel!%d' % p) for p in range(nd))))
    wkey = (flags.get_id(),) + tuple(d.get_id() for d in m.dims)
    hit = _WIDX.get(wkey)
    if hit is not None and hit[0].eq(flags) and hit[1] is ENG.pc:
        arrs, rank = hit[2]
        return (arrs, rank) if with_rank else arrs
    nm = ENG.fresh('sel')
    cnt = SelArr(m.dims, mf, None, 'i').count().z
    selfs = [z3.Function('%s_%d' % (nm, p), z3.IntSort(), z3.IntSort()) for p in range(nd)]
    rankf = z3.Function(nm + '_rank', *([z3.IntSort()] * nd + [z3.IntSort()]))
    kk = fresh_int('k')
    si = tuple(f(kk) for f in selfs)
    ENG.fact(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < cnt), z_and(in_range(si, m.dims), mf(si), rankf(*si) == kk)),
                       patterns=[selfs[0](kk)]))
    iv = [fresh_int('i') for _ in range(nd)]
    ENG.fact(z3.ForAll(iv, z3.Implies(z_and(in_range(iv, m.dims), mf(tuple(iv))),
                                      z_and(rankf(*iv) >= 0, rankf(*iv) < cnt, *[f(rankf(*iv)) == v for f, v in zip(selfs, iv)])),
                       patterns=[rankf(*iv)]))
    # make ranks of explicitly masked-true indices available to E-matching
    ENG.fact(z3.ForAll(iv, z3.Implies(z_and(in_range(iv, m.dims), mf(tuple(iv))), rankf(*iv) >= 0)))
    l1, l2 = fresh_int('k'), fresh_int('l')
    if nd == 1:
        lex = selfs[0](l1) < selfs[0](l2)
    else:
        lex = FALSE
        for p in reversed(range(nd)):
            lex = z3.Or(selfs[p](l1) < selfs[p](l2), z3.And(selfs[p](l1) == selfs[p](l2), lex))
    ENG.fact(z3.ForAll([l1, l2], z3.Implies(z3.And(0 <= l1, l1 < l2, l2 < cnt), lex),
                       patterns=[z3.MultiPattern(selfs[0](l1), selfs[0](l2))]))
    arrs = [SymArr(Storage((lambda f: (lambda i: SymInt(f(i[0]), True)))(f), (cnt,), 'i')) for f in selfs]
    rank = lambda i: rankf(*i)
    _WIDX[wkey] = (flags, ENG.pc, (arrs, rank), m.dims)
    return (arrs, rank) if with_rank else arrs


# ------------------------------------------------------------------ construction
def from_list(flat, shape, k):
    """flat: python list of scalars, C order."""
    shape = tuple(int(s) for s in shape)
    flat = [cast(x, k) for x in flat] if k != 'O' else list(flat)
    strides = []
    acc = 1
    for s in reversed(shape):
        strides.insert(0, acc)
        acc *= s

    def fn(idx):
        vals = [numval(i) for i in idx]
        if all(v is not None for v in vals):
            p = sum(int(v) * s for v, s in zip(vals, strides))
            if not 0 <= p < len(flat):
                return flat[0] if flat else cast(0, 'f')
            return flat[p]
        if k == 'O':
            i = ENG.concretize(idx[0])
            return flat[i]
        res = None
        for p in range(len(flat)):
            q = p
            cond = []
            for s, d in zip(strides, shape):
                cond.append(z_cmp('==', idx[len(cond)], zint((q // s) % d)))
            res = flat[p] if res is None else ite(z_and(*cond), flat[p], res)
        return res if res is not None else cast(0, k)
    return SymArr(Storage(fn, [zint(s) for s in shape], k))


def _scan(x):
    """nested python sequence -> (shape, flat leaves) with arrays as nodes"""
    if isinstance(x, (list, tuple)):
        subs = [_scan(y) for y in x]
        if not subs:
            return (0,), []
        sh = subs[0][0]
        for s in subs[1:]:
            if s[0] != sh:
                return None, None
        return (len(subs),) + sh, [z for s in subs for z in s[1]]
    return (), [x]


def array(x, dtype=None, subok=False, copy=True, ndmin=0):
    ENG.poll()
    k = dtk(dtype) if dtype is not None else None
    if isinstance(x, MaskedArray):
        if subok:
            return x.copy()
        x = x.data
    if isinstance(x, SelArr):
        r = x.copy()
        if k is not None and k != r.k:
            r = r.astype(DType(k))
        return r
    if isinstance(x, SymArr):
        if k is None or k == x.k:
            return x.copy()
        if x.k == 'O':
            return array(list(x), dtype=dtype)
        r = x.reader()
        if k == 'b' and x.k == 'f' or k != x.k:
            return SymArr(Storage(lambda i: cast(r(i), k), x.dims, k))
    if isinstance(x, (zip, map, range, types.GeneratorType, dict)) or hasattr(x, '__next__'):
        if isinstance(x, range):
            x = list(x)
        else:
            unsupported('np.array of an iterator')
    if isinstance(x, (list, tuple)):
        x = [y.mat() if isinstance(y, SelArr) else y for y in x]
        if any(isinstance(y, SymArr) and y.ndim > 0 for y in x):
            # stack of arrays
            subs = [as_operand(y) for y in x]
            if not all(isinstance(y, SymArr) for y in subs):
                unsupported('ragged array')
            if any(y.k == 'O' for y in subs):
                unsupported('nested object arrays')
            d0 = subs[0].dims
            for y in subs[1:]:
                if len(y.dims) != len(d0):
                    unsupported('ragged array')
                for a, b in zip(y.dims, d0):
                    if not a.eq(b) and not ENG.decide(z_cmp('==', a, b)):
                        if k is None:
                            unsupported('ragged array')
                        raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            kk = k or join_k(*[y.k for y in subs])
            rs = [y.reader() for y in subs]

            def fn(i):
                v = numval(i[0])
                if v is not None:
                    return cast(rs[min(max(int(v), 0), len(rs) - 1)](i[1:]), kk)
                res = cast(rs[-1](i[1:]), kk)
                for q in range(len(rs) - 2, -1, -1):
                    res = ite(z_cmp('==', i[0], zint(q)), cast(rs[q](i[1:]), kk), res)
                return res
            return SymArr(Storage(fn, (zint(len(subs)),) + tuple(d0), kk))
        x = unwrap0(x)
        sh, leaves = _scan(x)
        if sh is None:
            if k is None or k == 'O':
                return obj_array(x)
            raise ValueError('setting an array element with a sequence.')
        if any(isinstance(l, SymArr) for l in leaves):
            # arrays nested deeper than one level
            return array([array(y, dtype=dtype) for y in x], dtype=dtype)
        if any(is_inf(l) for l in leaves):
            return inf_list(leaves, sh)
        if k is None:
            k = join_k(*[sk(l) for l in leaves]) if leaves else 'f'
        if k == 'O':
            if len(sh) == 1:
                return obj_array(leaves)
            unsupported('n-d object array')
        leaves = [cast_store(l, k) for l in leaves]
        return from_list(leaves, sh, k)
    # scalar -> 0-d
    if x is None or isinstance(x, str):
        if k in ('f', 'i'):
            return array(cast_store(x, k))
        v = x
        return SymArr(Storage(lambda i: v, (), 'O'))
    if k is None:
        k = sk(x)
    if k == 'O' or sk(x) == 'O':
        if k != 'O' and sk(x) == 'O':
            raise TypeError('float() argument must be a string or a real number, not %s' % type(x).__name__)
        v = x
        return SymArr(Storage(lambda i: v, (), 'O'))
    if is_inf(x):
        unsupported('array of inf')
    v = cast(x, k)
    return SymArr(Storage(lambda i: v, (), k))


class InfList:
    pass


def inf_list(leaves, sh):
    """Small constant-shape array holding +-inf (crop windows): kept as a python-level object."""
    if len(sh) != 1:
        unsupported('inf in n-d array')
    a = from_list([0.0 if is_inf(l) else l for l in leaves], sh, 'f')
    # +-inf entries are modelled by values beyond any other compared number: not expressible in reals, so
    # such entries keep the concrete infinity and only support indexing and comparison.
    lst = [mk_np(l) if not is_inf(l) else l for l in leaves]
    return SymArr(Storage(lambda i: lst[int(numval(i[0]))] if numval(i[0]) is not None else unsupported('symbolic index into inf array'),
                          (zint(len(lst)),), 'f'))


def unwrap0(x):
    if isinstance(x, SymArr) and x.ndim == 0:
        return x.item_scalar()
    if isinstance(x, (list, tuple)):
        return [unwrap0(y) for y in x]
    return x


def asarray(x, dtype=None):
    if isinstance(x, (SymArr, SelArr)) and (dtype is None or dtk(dtype) == x.k):
        return x
    if isinstance(x, MaskedArray):
        return asarray(x.data, dtype)
    return array(x, dtype=dtype)


def asanyarray(x, dtype=None):
    if isinstance(x, MaskedArray):
        return x
    return asarray(x, dtype)


def _shape(shape):
    if isinstance(shape, (tuple, list)):
        return [zdim(unwrap0(s)) for s in shape]
    if isinstance(shape, SymArr):
        return [zdim(s) for s in shape]
    return [zdim(shape)]


def full(shape, v, dtype=None):
    k = dtk(dtype) if dtype is not None else sk(v)
    s = cast(v, k)
    return SymArr(Storage(lambda i: s, _shape(shape), k))


def zeros(shape, dtype=float):
    if dtype is None:
        dtype = float
    k = dtk(dtype)
    if k == 'O':
        return obj_array([0] * int(numval(_shape(shape)[0])))
    return full(shape, {'f': 0.0, 'i': 0, 'b': False}[k], dtype)


def ones(shape, dtype=float):
    if dtype is None:
        dtype = float
    return full(shape, {'f': 1.0, 'i': 1, 'b': True}[dtk(dtype)], dtype)


def empty(shape, dtype=float):
    if dtype is None:
        dtype = float
    k = dtk(dtype)
    dims = _shape(shape)
    if k == 'O':
        return obj_array([None] * int(numval(dims[0])))
    return sym_array(ENG.fresh('uninit'), dims, k, nan=True)


def sym_array(name, dims, k, nan=False):
    """Fresh unconstrained array."""
    dims = [zdim(d) for d in dims]
    c = small(dims)
    sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[k]
    if c is not None:
        flat = []
        for i in itertools.product(*[range(x) for x in c]):
            nm = '%s[%s]' % (name, ','.join(map(str, i)))
            if k == 'f':
                flat.append(SymReal(z3.Real(nm), z3.Bool(nm + '.nan') if nan else False, True))
            elif k == 'i':
                flat.append(SymInt(z3.Int(nm), True))
            else:
                flat.append(SymBool(z3.Bool(nm), True))
        return from_list(flat, c, k)
    nd = len(dims)
    f = z3.Function(name, *([z3.IntSort()] * nd + [sort]))
    if k == 'f':
        g = z3.Function(name + '.nan', *([z3.IntSort()] * nd + [z3.BoolSort()])) if nan else None
        fn = lambda i: SymReal(f(*i), g(*i) if g is not None else False, True)
    elif k == 'i':
        fn = lambda i: SymInt(f(*i), True)
    else:
        fn = lambda i: SymBool(f(*i), True)
    return SymArr(Storage(fn, dims, k))


def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or a.dtype)


def arange(start, stop=None, step=1, dtype=None):
    start, stop, step = unwrap0(start), unwrap0(stop), unwrap0(step)
    if stop is None:
        start, stop = 0, start
    a, b, s = num(start), num(stop), num(step)
    if a is None or b is None or s is None:
        raise TypeError('arange: bad arguments')
    ints = all(isinstance(t, SymInt) for t in (a, b, s))
    kout = dtk(dtype) if dtype is not None else ('i' if ints else 'f')
    if ints:
        sv = numval(s.z)
        if sv is not None:
            sv = int(sv)
            if sv == 0:
                raise ZeroDivisionError('division by zero')
            d = z_sub(b.z, a.z) if sv > 0 else z_sub(a.z, b.z)
            n = abs(sv)
            dv = numval(d)
            if dv is not None:
                ln = zint(max(0, -((-int(dv)) // n)))
            else:
                ln = zmax(d, zint(0)) if n == 1 else z3.If(d <= 0, zint(0), (d + (n - 1)) / n)
            az = a.z
            return SymArr(Storage(lambda i: cast(SymInt(z_add(az, z_mul(zint(sv), i[0])), True), kout), (ln,), kout))
        a, b, s = [SymReal(z_toreal(t.z)) for t in (a, b, s)]
    av, bv, sv = [t.v if isinstance(t, SymReal) else z_toreal(t.z) for t in (a, b, s)]
    diff = z3.simplify(z_sub(bv, av), som=True)
    q = z_div(diff, sv)
    qv = numval(z3.simplify(q))
    if qv is not None:
        ln = zint(max(0, -((-qv.numerator) // qv.denominator)))
    else:
        ln = fresh_int('alen')
        # ln = max(0, ceil(diff/step))
        if not ENG.decide(z_cmp('!=', sv, zreal(0))):
            raise ZeroDivisionError('division by zero')
        lr = z3.ToReal(ln)
        pos = ENG.decide(sv > 0)
        if pos:
            ENG.fact(z3.If(diff <= 0, ln == 0, z3.And(ln >= 1, (lr - 1) * sv < diff, diff <= lr * sv)))
        else:
            ENG.fact(z3.If(diff >= 0, ln == 0, z3.And(ln >= 1, (lr - 1) * sv > diff, diff >= lr * sv)))
        # diff == c*step for an integer term c found syntactically
        guess = int_multiple(diff, sv)
        if guess is not None and ENG.entails(z3.ToReal(guess) * sv == diff) and ENG.entails(guess >= 0):
            ln2 = guess
            ENG.fact(ln == ln2)
            ln = ln2
    if kout == 'i':
        # numpy computes the first two values in the output type and fills with their difference
        v0 = trunc_z(av)
        v1 = trunc_z(z_add(av, sv))
        dlt = z_sub(v1, v0)
        return SymArr(Storage(lambda i: SymInt(z_add(v0, z_mul(i[0], dlt)), True), (ln,), 'i'))
    return SymArr(Storage(lambda i: SymReal(z_add(av, z_mul(z_toreal(i[0]), sv)), False, True), (ln,), 'f'))


def int_multiple(diff, sv):
    """If diff is syntactically  ToReal(c) * sv  (after simplification), return c."""
    cands = set()
    stack = [diff]
    out = []
    while stack:
        e = stack.pop()
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            out.append(e.arg(0))
        stack.extend(e.children())
    for c in out:
        for t in (c, -c):
            if ENG.entails(z3.ToReal(t) * sv == diff, ms=500):
                return z3.simplify(t)
    return None


def linspace(a, b, num_=50, endpoint=True, **kw):
    if 'num' in kw:
        num_ = kw['num']
    n = zdim(unwrap0(num_))
    a, b = num(unwrap0(a)), num(unwrap0(b))
    av = a.v if isinstance(a, SymReal) else z_toreal(a.z)
    bv = b.v if isinstance(b, SymReal) else z_toreal(b.z)
    nan = z_or(zb(a.n) if isinstance(a, SymReal) else FALSE, zb(b.n) if isinstance(b, SymReal) else FALSE)
    m = z_toreal(z_sub(n, zint(1)) if endpoint else n)
    d = z_sub(bv, av)
    return SymArr(Storage(lambda i: SymReal(z_add(av, z_div(z_mul(d, z_toreal(i[0])), m)), nan, True), (n,), 'f'))


# ------------------------------------------------------------------ reductions
def split_axis(a, axis):
    nd = len(a.dims)
    if isinstance(axis, SymInt):
        axis = ENG.concretize(axis.z)
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise ValueError('axis out of bounds')
    rdims = (a.dims[axis],)
    odims = a.dims[:axis] + a.dims[axis + 1:]
    return axis, odims, rdims


def q_reduce(a, axis, kind):
    a = as_operand(a)
    if isinstance(a, MaskedArray):
        # numpy gives `masked` (false as a condition) when everything is masked
        if kind == 'all' or axis is not None:
            unsupported('all of masked arrays, any of masked arrays along one axis')
        a = a.filled(False)
    if not isinstance(a, (SymArr, SelArr)):
        if isinstance(a, (SymBool, SymInt, SymReal)):
            return mk_np(to_bool(a))
        return mk_np(bool(a))
    if a.k == 'O':
        vals = list(a)
        r = True if kind == 'all' else False
        return mk_np((all if kind == 'all' else any)(bool(x) for x in vals))
    tb = lambda s: to_bool(s).z
    if isinstance(a, SelArr):
        mf, vf = a.mf, a.vf
        if kind == 'all':
            return SymBool(q_forall(a.dims0, lambda i: z_imp(mf(i), tb(vf(i)))))
        return SymBool(q_exists(a.dims0, lambda i: z_and(mf(i), tb(vf(i)))))
    r = a.reader()
    q = q_forall if kind == 'all' else q_exists
    if axis is None:
        return SymBool(q(a.dims, lambda i: tb(r(i))))
    axis, od, rd = split_axis(a, axis)
    return SymArr(Storage(lambda i: SymBool(q(rd, lambda j: tb(r(i[:axis] + j + i[axis:])))), od, 'b')) if od else \
        SymBool(q(rd, lambda j: tb(r(j))))


def np_any(a, axis=None):
    return q_reduce(a, axis, 'any')


def np_all(a, axis=None):
    return q_reduce(a, axis, 'all')


class SumRec:
    __slots__ = ('np', 'dims', 'fn', 'app', 'isint')


def reg_sum(dims, fn, params=0):
    """Sum of fn over dims.  Returns a scalar, or (with params) a function of the parameter tuple."""
    c = small(dims)

    def expand(p):
        tot = None
        for i in each(c):
            v = fn(p + i) if params else fn(i)
            tot = v if tot is None else binop('+', tot, v, npmode=True)
        return tot if tot is not None else SymInt(zint(0), True)
    if c is not None:
        return (lambda p: expand(p)) if params else expand(())
    probe_idx = tuple(fresh_int('p') for _ in range(params)) + tuple(fresh_int('i') for _ in dims)
    v = fn(probe_idx)
    isint = isinstance(v, SymInt)
    nm = ENG.fresh('sum')
    sort = z3.IntSort() if isint else z3.RealSort()
    if params:
        f = z3.Function(nm, *([z3.IntSort()] * params + [sort]))
        app = lambda p: f(*p)
    else:
        cst = z3.Const(nm, sort)
        app = lambda p: cst
    rec = SumRec()
    rec.np, rec.dims, rec.fn, rec.app, rec.isint = params, tuple(dims), fn, app, isint
    # lemmas: non-negative summands give a non-negative sum; 0/1 summands count
    pv = [fresh_int('p') for _ in range(params)]

    def quant(body):
        return z3.ForAll(pv, body) if params else body
    if isint:
        ENG.fact(quant(app(tuple(pv)) >= 0)) if ENG.entails(q_forall(
            tuple([fresh_int('d') for _ in range(0)]) + tuple(dims), lambda i: fn(tuple(pv) + i).z >= 0)) else None
        tot = zint(1)
        for d in dims:
            tot = z_mul(tot, d)
        ENG.fact(quant(z3.Implies(q_forall(dims, lambda i: fn(tuple(pv) + i).z <= 0), app(tuple(pv)) <= 0)))
        ENG.fact(quant(z3.Implies(q_exists(dims, lambda i: fn(tuple(pv) + i).z >= 1), app(tuple(pv)) >= 1)))
        ENG.fact(quant(z3.Implies(q_forall(dims, lambda i: fn(tuple(pv) + i).z == 1), app(tuple(pv)) == tot)))
        ENG.fact(quant(z3.Implies(q_forall(dims, lambda i: fn(tuple(pv) + i).z <= 1), app(tuple(pv)) <= tot)))
    else:
        ENG.fact(quant(z3.Implies(q_forall(dims, lambda i: fn(tuple(pv) + i).v >= 0), app(tuple(pv)) >= 0)))
    ENG.sums.append(rec)

    def mk(p):
        if isint:
            return SymInt(app(p), True)
        return SymReal(app(p), q_exists(dims, lambda i: zb(fn(p + i).n)), True)
    return mk if params else mk(())


def sum_lemmas():
    """Congruence of registered sums: equal summands give equal sums (proved pairwise, then assumed)."""
    ss = ENG.sums
    done = getattr(ENG, '_sumdone', None)
    if done is None or done[0] is not ENG.pc:
        ENG._sumdone = done = (ENG.pc, set())
    for x in range(len(ss)):
        for y in range(x + 1, len(ss)):
            if (x, y) in done[1]:
                continue
            done[1].add((x, y))
            a, b = ss[x], ss[y]
            if a.np != b.np or len(a.dims) != len(b.dims) or a.isint != b.isint:
                continue
            if not all(d.eq(e) or ENG.entails(d == e) for d, e in zip(a.dims, b.dims)):
                continue
            pv = tuple(fresh_int('p') for _ in range(a.np))
            iv = tuple(fresh_int('i') for _ in a.dims)
            fa, fb = a.fn(pv + iv), b.fn(pv + iv)
            g = z_imp(in_range(iv, a.dims), z_cmp('==', fa.z, fb.z) if a.isint else
                      z_imp(z_not(z_or(zb(fa.n), zb(fb.n))), z_cmp('==', fa.v, fb.v)))
            if a.isint or True:
                if ENG.entails(g, ms=1500):
                    e = a.app(pv) == b.app(pv)
                    if not a.isint:
                        nn = q_forall(a.dims, lambda i: z_not(z_or(zb(a.fn(pv + i).n), zb(b.fn(pv + i).n))))
                        e = z_imp(nn, e)
                    ENG.fact(z3.ForAll(list(pv), e) if pv else e)


def _summand(s):
    if isinstance(s, SymBool):
        return s._i()
    return s


def np_sum(a, axis=None, **kw):
    a = as_operand(a)
    if isinstance(a, MaskedArray):
        return a.ma_sum(axis)
    if isinstance(a, Sym) or isinstance(a, (int, float)):
        return mk_np(a) if not isinstance(a, SymBool) else a._i()
    if isinstance(a, SelArr):
        if axis not in (None, 0):
            raise ValueError('axis')
        mf, vf = a.mf, a.vf
        zero = SymInt(zint(0), True) if a.k in 'bi' else SymReal(zreal(0), False, True)
        r = reg_sum(a.dims0, Fn(lambda i: ite(mf(i), _summand(vf(i)), zero)))
        return cast(r, 'f') if a.k == 'f' else r
    if a.k == 'O':
        vals = list(a)
        if not vals:
            return 0
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        return r
    r = a.reader()
    if axis is None:
        v = reg_sum(pin(a.dims), Fn(lambda i: _summand(r(i))))
        return cast(v, 'f') if a.k == 'f' else v
    axis, od, rd = split_axis(a, axis)
    k = 'f' if a.k == 'f' else 'i'
    if not od:
        return cast(reg_sum(rd, Fn(lambda j: _summand(r(j)))), k)
    n = len(od)
    m = reg_sum(rd, Fn(lambda x: _summand(r(x[:n][:axis] + x[n:] + x[:n][axis:]))), params=n)
    return SymArr(Storage(lambda i: cast(m(i), k), od, k))


def np_prod(a, axis=None):
    vals = list(as_operand(a))
    r = SymInt(zint(1), True)
    for v in vals:
        r = r * v
    return r


def np_mean(a, axis=None):
    a = as_operand(a)
    if isinstance(a, MaskedArray):
        return a.ma_mean(axis)
    if isinstance(a, Sym) or isinstance(a, (int, float)):
        return cast(mk_np(a), 'f')
    s = np_sum(a, axis)
    if isinstance(a, SymArr) and a.k == 'O':
        return s / len(a)
    if isinstance(a, SelArr):
        return binop('/', s, a.count(), npmode=True)
    if axis is None:
        return binop('/', s, mk_np(num(a.size)), npmode=True)
    axis, od, rd = split_axis(a, axis)
    n = SymInt(rd[0], True)
    if not od:
        return binop('/', s, n, npmode=True)
    return ew(_opf('/'), s, n)


def np_std(a, axis=None):
    m = np_mean(a, axis)
    if axis not in (None,):
        unsupported('std with axis')
    return sqrt(np_mean((as_operand(a) - m) ** 2))


def np_var(a, axis=None):
    m = np_mean(a, axis)
    return np_mean((as_operand(a) - m) ** 2)


def extremum(a, axis, kind):
    a = as_operand(a)
    if isinstance(a, MaskedArray):
        unsupported('min/max of masked array')
    if isinstance(a, Sym) or isinstance(a, (int, float)):
        return mk_np(a)
    cmpop = '<=' if kind == 'min' else '>='
    if isinstance(a, SelArr):
        dims, mf, vf = a.dims0, a.mf, a.vf
    else:
        if a.k == 'O':
            unsupported('min of objects')
        dims, mf, vf = a.dims, None, a.reader()
    if a.k == 'b':
        vf0 = vf
        vf = lambda i: vf0(i)._i()
    if axis is not None and isinstance(a, SymArr) and len(a.dims) > 1:
        ax, od, rd = split_axis(a, axis)
        c = small(rd)
        if c is None:
            unsupported('axis min/max over symbolic length')

        def fn(i):
            res = None
            for j in each(c):
                v = vf(i[:ax] + j + i[ax:])
                res = v if res is None else smin(res, v, kind)
            return res
        return SymArr(Storage(fn, od, a.k))
    guard = (lambda i: mf(i)) if mf is not None else (lambda i: TRUE)
    if mf is None:
        dims = pin(dims)
    if not ENG.decide(q_exists(dims, guard)):
        raise ValueError('zero-size array to reduction operation %simum which has no identity' % kind)
    c = small(dims)
    if c is not None and mf is None:
        res = None
        for i in each(c):
            res = vf(i) if res is None else smin(res, vf(i), kind)
        return res
    isint = a.k in 'ib'
    nm = ENG.fresh(kind)
    if isint:
        m = z3.Int(nm)
        ENG.fact(q_forall(dims, lambda i: z_imp(guard(i), z_cmp(cmpop, m, vf(i).z))))
        ENG.fact(q_exists(dims, lambda i: z_and(guard(i), m == vf(i).z)))
        return SymInt(m, True)
    m = z3.Real(nm)
    anynan = q_exists(dims, lambda i: z_and(guard(i), zb(vf(i).n)))
    ENG.fact(z_imp(z_not(anynan), q_forall(dims, lambda i: z_imp(guard(i), z_cmp(cmpop, m, vf(i).v)))))
    ENG.fact(z_imp(z_not(anynan), q_exists(dims, lambda i: z_and(guard(i), m == vf(i).v))))
    return SymReal(m, anynan, True)


def smin(a, b, kind):
    x, y = num(a), num(b)
    if isinstance(x, SymInt) and isinstance(y, SymInt):
        return SymInt(z_ite(z_cmp('<=' if kind == 'min' else '>=', x.z, y.z), x.z, y.z), True)
    x, y = cast(x, 'f'), cast(y, 'f')
    nan = z_or(zb(x.n), zb(y.n))
    return SymReal(z_ite(z_cmp('<=' if kind == 'min' else '>=', x.v, y.v), x.v, y.v), nan, True)


def np_min(a, axis=None):
    return extremum(a, axis, 'min')


def np_max(a, axis=None):
    return extremum(a, axis, 'max')


def arg_extremum(a, kind):
    a = as_operand(a)
    if isinstance(a, SelArr):
        a = a.mat()
    if a.ndim != 1:
        a = a.flatten()
    r = a.reader()
    c = small(a.dims)
    op = '<' if kind == 'min' else '>'
    val = (lambda s: s._i()) if a.k == 'b' else (lambda s: s)
    if not ENG.decide(z_cmp('>=', a.dims[0], zint(1))):
        raise ValueError('attempt to get arg%s of an empty sequence' % kind)
    nanf = (lambda s: zb(s.n) if isinstance(s, SymReal) else FALSE)
    if c is not None:
        best, bi = val(r((zint(0),))), zint(0)
        for i in range(1, c[0]):
            v = val(r((zint(i),)))
            better = z_and(z_not(nanf(best)), z_or(nanf(v), compare(op, v, best).z))
            best, bi = ite(better, v, best), z_ite(better, zint(i), bi)
        return SymInt(bi, True)
    z = fresh_int('arg')
    n = a.dims[0]
    ENG.fact(z3.And(z >= 0, z < n))
    anyn = q_exists(a.dims, lambda i: nanf(val(r(i))))
    av = val(r((z,)))
    ENG.fact(z_imp(z_not(anyn), q_forall(a.dims, lambda i: z_and(z_not(compare(op, val(r(i)), av).z),
                                                             z_imp(i[0] < z, compare('>' if kind == 'min' else '<', val(r(i)), av).z)))))
    ENG.fact(z_imp(anyn, z_and(nanf(av), q_forall(a.dims, lambda i: z_imp(i[0] < z, z_not(nanf(val(r(i)))))))))
    return SymInt(z, True)


def np_argmin(a, axis=None):
    return arg_extremum(a, 'min')


def np_argmax(a, axis=None):
    return arg_extremum(a, 'max')


def np_argsort(a, axis=-1, kind=None):
    a = as_operand(a)
    if isinstance(a, SelArr):
        a = a.mat()
    if a.k == 'O':
        lst = list(a)
        a = array([num(x) for x in lst])
    if a.ndim != 1:
        unsupported('argsort n-d')
    r = a.reader()
    c = small(a.dims)
    n = a.dims[0]
    if c is not None:
        # insertion sort by decisions (a concrete permutation per path); NaN last
        order = []
        for i in range(c[0]):
            p = len(order)
            vi = r((zint(i),))
            while p > 0:
                vj = r((zint(order[p - 1]),))
                gt = compare('>', vj, vi).z
                nj = zb(vj.n) if isinstance(vj, SymReal) else FALSE
                ni = zb(vi.n) if isinstance(vi, SymReal) else FALSE
                if ENG.decide(z_or(gt, z_and(nj, z_not(ni)))):
                    p -= 1
                else:
                    break
            order.insert(p, i)
        return from_list([SymInt(zint(i), True) for i in order], (c[0],), 'i')
    nm = ENG.fresh('perm')
    p = z3.Function(nm, z3.IntSort(), z3.IntSort())
    q = z3.Function(nm + '_inv', z3.IntSort(), z3.IntSort())
    k, l = fresh_int('k'), fresh_int('l')
    ENG.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(p(k) >= 0, p(k) < n, q(p(k)) == k)), patterns=[p(k)]))
    ENG.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(q(k) >= 0, q(k) < n, p(q(k)) == k)), patterns=[q(k)]))
    ENG.fact(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), z_not(compare('>', r((p(k),)), r((p(l),))).z)),
                       patterns=[z3.MultiPattern(p(k), p(l))]))
    # a sorted input is left in place when its values are distinct
    if ENG.entails(q_forall((n, n), lambda i: z_imp(i[0] < i[1], compare('<', r((i[0],)), r((i[1],))).z)), ms=800):
        ENG.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(p(k) == k, q(k) == k)), patterns=[p(k)]))
        return arange(pydim(n))
    if ENG.entails(q_forall((n, n), lambda i: z_imp(i[0] < i[1], compare('>', r((i[0],)), r((i[1],))).z)), ms=800):
        return SymArr(Storage(lambda i: SymInt(z_sub(z_sub(n, zint(1)), i[0]), True), (n,), 'i'))
    return SymArr(Storage(lambda i: SymInt(p(i[0]), True), (n,), 'i'))


def np_sort(a):
    a = asarray(a)
    return a[np_argsort(a)]


def np_searchsorted(a, v, side='left'):
    a = asarray(a)
    r = a.reader()
    v = mk_np(v)
    if isinstance(v, SymArr):
        unsupported('vector searchsorted')
    n = a.dims[0]
    c = small(a.dims)
    op = '<' if side == 'left' else '<='
    if not ENG.entails(q_forall((n, n), lambda i: z_imp(i[0] < i[1], compare('<=', r((i[0],)), r((i[1],))).z)), ms=1500):
        if c is None:
            unsupported('searchsorted on an array not known to be sorted')
        if not ENG.decide(q_forall((n, n), lambda i: z_imp(z_cmp('<', i[0], i[1]), compare('<=', r((i[0],)), r((i[1],))).z))):
            unsupported('searchsorted on unsorted array')
    if c is not None:
        z = zint(0)
        for i in range(c[0]):
            z = z_add(z, z_ite(compare(op, r((zint(i),)), v).z, zint(1), zint(0)))
        return SymInt(z, True)
    z = fresh_int('ss')
    ENG.fact(z3.And(z >= 0, z <= n))
    ENG.fact(q_forall(a.dims, lambda i: compare(op, r(i), v).z == (i[0] < z)))
    # useful ground instances
    for e in (z, z_sub(z, zint(1)), zint(0), z_sub(n, zint(1))):
        ENG.fact(z_imp(z_and(e >= 0, e < n), compare(op, r((e,)), v).z == (e < z)))
    return SymInt(z, True)


def np_cumsum(a, axis=None):
    vals = list(as_operand(a))
    out, acc = [], None
    for v in vals:
        acc = v if acc is None else acc + v
        out.append(acc)
    return array(out)


def np_nonzero(a):
    return np_where(a)


def np_where(c, x=None, y=None):
    c = as_operand(c)
    if x is None:
        if isinstance(c, SelArr):
            c = c.mat()
        if c.k != 'b':
            c = array(c, dtype=bool)
        return tuple(where_idx(c))
    return ew(lambda cc, a, b: ite(to_bool(cc).z, a, b), c, x, y,
              k=join_k(*[(t.k if hasattr(t, 'k') else sk(t)) for t in (as_operand(x), as_operand(y))]))


def argwhere(c):
    c = as_operand(c)
    if c.k != 'b':
        c = array(c, dtype=bool)
    ii = where_idx(c)
    return stack_cols(ii)


def stack_cols(cols):
    rs = [c.reader() for c in cols]

    def fn(i):
        v = numval(i[1])
        if v is not None:
            return rs[int(v)]((i[0],))
        res = rs[-1]((i[0],))
        for q in range(len(rs) - 2, -1, -1):
            res = ite(z_cmp('==', i[1], zint(q)), rs[q]((i[0],)), res)
        return res
    return SymArr(Storage(fn, (cols[0].dims[0], zint(len(cols))), cols[0].k))


# ------------------------------------------------------------------ logic and math ufuncs
def _lb(x):
    return to_bool(x).z if not isinstance(x, bool) else zb(x)


def logical_or(a, b, out=None):
    return ew(lambda x, y: SymBool(z_or(_lb(x), _lb(y))), a, b, k='b')


def logical_and(a, b):
    return ew(lambda x, y: SymBool(z_and(_lb(x), _lb(y))), a, b, k='b')


def logical_xor(a, b):
    return ew(lambda x, y: SymBool(z_not(_lb(x) == _lb(y))), a, b, k='b')


def logical_not(a):
    return ew(lambda x: SymBool(z_not(_lb(x))), a, k='b')


def isnan(a):
    a0 = as_operand(a)
    if isinstance(a0, (SymArr, SelArr)) and a0.k == 'O' or sk_any(a0) == 'O':
        if isinstance(a0, (SymArr, SelArr)):
            raise TypeError("ufunc 'isnan' not supported for the input types")
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return ew(lambda x: SymBool(zb(x.n) if isinstance(x, SymReal) else FALSE), a, k='b')


def sk_any(a):
    if isinstance(a, (SymArr, SelArr, MaskedArray)):
        return a.k
    return sk(a)


def isfinite(a):
    return logical_not(isnan(a))


def isinf(a):
    return ew(lambda x: SymBool(FALSE), a, k='b')


def absolute(a):
    if not isinstance(as_operand(a), (SymArr, SelArr, MaskedArray, Sym, int, float)):
        return abs(a)
    if is_inf(a):
        return INF
    return ew(lambda x: abs(x) if not isinstance(x, SymBool) else x, a)


def sqrt(a):
    if not isinstance(as_operand(a), (SymArr, SelArr, MaskedArray, Sym, int, float)):
        return a ** 0.5
    return ew(lambda x: binop('**', cast(x, 'f'), 0.5, npmode=True), a, k='f')


def power(a, b):
    ao, bo = as_operand(a), as_operand(b)
    if not isinstance(ao, (SymArr, SelArr, MaskedArray)) and not isinstance(bo, (SymArr, SelArr)):
        if num(ao) is None:
            return a ** b
        return binop('**', mk_np(ao), mk_np(bo), npmode=True)
    return arr_binop('**', ao, bo)


PI = math.pi


def trig_arg(x):
    """Return the multiple of pi/2 if x is (numerically) one, else None."""
    v = numval(z3.simplify(x.v)) if isinstance(x, SymReal) else numval(x.z)
    if v is None:
        return None
    q = float(v) / (PI / 2)
    if abs(q - round(q)) < 1e-9:
        return int(round(q))
    return None


def split_angle(t):
    """(base angle term or None, multiple of pi/2) if the term is base + k*pi/2, base an inverse tangent; else None."""
    t = z3.simplify(t)
    parts = list(t.children()) if z3.is_add(t) else [t]
    base, const = None, Fraction(0)
    for p in parts:
        v = numval(p)
        if v is not None:
            const += v
        elif base is None and z3.is_app(p) and p.decl().name() in ('arctan_', 'arctan2_'):
            base = p
        else:
            return None
    if base is None:
        return None
    q = float(const) / (PI / 2)
    if abs(q - round(q)) > 1e-9:
        return None
    return base, int(round(q)) % 4


def angle_cs(base):
    """Cosine and sine of an inverse tangent, by their definitions."""
    if base.decl().name() == 'arctan_':
        t = base.arg(0)
        h = sym_sqrt(z_add(zreal(1), z_mul(t, t)))
        return z_div(zreal(1), h), z_div(t, h)
    y, x = base.arg(0), base.arg(1)
    h2 = z_add(z_mul(x, x), z_mul(y, y))
    h = sym_sqrt(h2)
    zero = z_cmp('==', h2, zreal(0))
    return z3.If(zero, zreal(1), z_div(x, h)), z3.If(zero, zreal(0), z_div(y, h))


def trig(which):
    tab = {'cos': [1, 0, -1, 0], 'sin': [0, 1, 0, -1]}[which]
    fun = {'cos': COS, 'sin': SIN}[which]

    def f(x):
        x = cast(x, 'f')
        q = trig_arg(x)
        if q is not None:
            return SymReal(zreal(tab[q % 4]), x.n, True)
        sp = split_angle(x.v)
        if sp is not None:
            c, s = angle_cs(sp[0])
            cs = [(c, s), (z_sub(zreal(0), s), c), (z_sub(zreal(0), c), z_sub(zreal(0), s)), (s, z_sub(zreal(0), c))][sp[1]]
            return SymReal(cs[0] if which == 'cos' else cs[1], x.n, True)
        return SymReal(fun(x.v), x.n, True)
    return f


def cos(a):
    return ew(trig('cos'), a, k='f')


def sin(a):
    return ew(trig('sin'), a, k='f')


def arctan(a):
    return ew(lambda x: (lambda y: SymReal(ARCTAN(y.v), y.n, True))(cast(x, 'f')), a, k='f')


def hypot(a, b):
    return sqrt(as_operand(a) ** 2 + as_operand(b) ** 2)


def _uf(fun):
    def g(a):
        return ew(lambda x: (lambda y: SymReal(fun(y.v), y.n, True))(cast(x, 'f')), a, k='f')
    return g


def exp(a):
    def f(x):
        x = cast(x, 'f')
        if numval(x.v) == 0:
            return SymReal(zreal(1), x.n, True)
        return SymReal(EXP(x.v), x.n, True)
    return ew(f, a, k='f')


def _log(v):
    c = numval(v)
    return LOG(v) if c is None or c <= 0 else zreal(math.log(float(c)))


def log(a):
    return ew(lambda x: (lambda y: SymReal(_log(y.v), z_or(zb(y.n), z_cmp('<', y.v, zreal(0))), True))(cast(x, 'f')), a, k='f')


def arccos(a):
    return ew(lambda x: (lambda y: SymReal(ARCCOS(y.v), z_or(zb(y.n), y.v < -1, y.v > 1), True))(cast(x, 'f')), a, k='f')


def arctan2(a, b):
    return ew(lambda x, y: SymReal(ARCTAN2(cast(x, 'f').v, cast(y, 'f').v), z_or(zb(cast(x, 'f').n), zb(cast(y, 'f').n)), True), a, b, k='f')


def floor(a):
    return ew(lambda x: (lambda y: SymReal(z_toreal(floor_z(y.v)), y.n, True))(cast(x, 'f')), a, k='f')


def ceil(a):
    return ew(lambda x: (lambda y: SymReal(z_toreal(ceil_z(y.v)), y.n, True))(cast(x, 'f')), a, k='f')


def np_round(a, n=0):
    if n != 0:
        unsupported('round to decimals')

    def f(x):
        y = cast(x, 'f')
        fl = z_toreal(floor_z(y.v))
        half = z_add(fl, zreal(Fraction(1, 2)))
        even = int_even(floor_z(y.v))
        return SymReal(z_ite(y.v < half, fl, z_ite(y.v > half, z_add(fl, zreal(1)), z_ite(even, fl, z_add(fl, zreal(1))))), y.n, True)
    return ew(f, a, k='f')


def int_even(z):
    return z % 2 == 0


def sign(a):
    def f(x):
        if isinstance(x, SymInt):
            return SymInt(z_ite(x.z > 0, zint(1), z_ite(x.z < 0, zint(-1), zint(0))), True)
        return SymReal(z_ite(x.v > 0, zreal(1), z_ite(x.v < 0, zreal(-1), zreal(0))), x.n, True)
    return ew(f, a)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    def f(x, y):
        x, y = cast(x, 'f'), cast(y, 'f')
        nan = z_or(zb(x.n), zb(y.n))
        d = z_abs(z_sub(x.v, y.v))
        e = z_sub(x.v, y.v)
        tol = z_add(zreal(atol), z_mul(zreal(rtol), z_abs(y.v)))
        if numval(z3.simplify(e)) == 0:
            return SymBool(z_not(nan))
        return SymBool(z_and(z_not(nan), d <= tol))
    return ew(f, a, b, k='b')


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return np_all(isclose(a, b, rtol, atol))


def maximum(a, b):
    return ew(lambda x, y: smin(x, y, 'max'), a, b)


def minimum(a, b):
    return ew(lambda x, y: smin(x, y, 'min'), a, b)


# ------------------------------------------------------------------ layout
def meshgrid(x, y, indexing='xy'):
    x, y = asarray(x), asarray(y)
    if isinstance(x, SelArr):
        x = x.mat()
    if isinstance(y, SelArr):
        y = y.mat()
    rx, ry = x.reader(), y.reader()
    nx, ny = x.dims[0], y.dims[0]
    if indexing == 'xy':
        return [SymArr(Storage(lambda i: rx((i[1],)), (ny, nx), x.k)), SymArr(Storage(lambda i: ry((i[0],)), (ny, nx), y.k))]
    return [SymArr(Storage(lambda i: rx((i[0],)), (nx, ny), x.k)), SymArr(Storage(lambda i: ry((i[1],)), (nx, ny), y.k))]


def transpose(a, axes=None):
    a = as_operand(a)
    return a.transpose(axes) if axes is not None else a.transpose()


def rot90(a, k=1, axes=(0, 1)):
    a = asarray(a)
    k = num(k)
    kv = numval(k.z)
    kv = ENG.concretize(k.z) if kv is None else int(kv)
    kv %= 4
    if kv == 0:
        return a[:]
    if kv == 2:
        return a[::-1, ::-1]
    if kv == 1:
        return a[:, ::-1].transpose()
    return a.transpose()[:, ::-1]


def flipud(a):
    return asarray(a)[::-1]


def fliplr(a):
    return asarray(a)[:, ::-1]


def flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in a.dims)]
    return a[tuple(slice(None, None, -1) if p == axis else slice(None) for p in range(a.ndim))]


def concatenate(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    arrs = [a.mat() if isinstance(a, SelArr) else a for a in arrs]
    nd = arrs[0].ndim
    if any(a.k == 'O' for a in arrs):
        return obj_array([x for a in arrs for x in a])
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match exactly')
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if axis < 0:
        axis += nd
    ks = join_k(*[a.k for a in arrs])
    for p in range(nd):
        if p == axis:
            continue
        for a in arrs[1:]:
            if not a.dims[p].eq(arrs[0].dims[p]) and not ENG.decide(z_cmp('==', a.dims[p], arrs[0].dims[p])):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs, tot = [], zint(0)
    for a in arrs:
        offs.append(tot)
        tot = z_add(tot, a.dims[axis])
    rs = [a.reader() for a in arrs]

    def fn(i):
        e = i[axis]
        res = None
        for q in range(len(arrs) - 1, -1, -1):
            if numval(arrs[q].dims[axis]) == 0:
                continue
            loc = i[:axis] + (z_sub(e, offs[q]),) + i[axis + 1:]
            if res is None:
                ev, ov = numval(e), numval(offs[q])
                if ev is not None and ov is not None and ev < ov:
                    continue
                res = cast(rs[q](loc), ks)
            else:
                cnd = z_cmp('<', e, offs[q + 1])
                if is_f(cnd):
                    continue
                if is_t(cnd):
                    res = cast(rs[q](loc), ks)
                else:
                    res = ite(cnd, cast(rs[q](loc), ks), res)
        return res if res is not None else cast(0, ks)
    dims = list(arrs[0].dims)
    dims[axis] = tot
    return SymArr(Storage(fn, dims, ks))


def append(a, b, axis=None):
    a, b = asarray(a), asarray(b)
    if axis is None:
        a = a.flatten() if a.ndim != 1 else a
        b = b.reshape((-1,)) if b.ndim != 1 else b
        return concatenate((a, b))
    return concatenate((a, b), axis=axis)


def hstack(arrs):
    arrs = [asarray(a) for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    arrs = [asarray(a) for a in arrs]
    arrs = [a.reshape((1, a.shape[0])) if a.ndim == 1 else a for a in arrs]
    return concatenate(arrs, axis=0)


def delete(a, ind, axis=None):
    a = asarray(a)
    ind = unwrap0(ind)
    if isinstance(ind, (list, tuple, SymArr, SelArr)):
        lst = list(ind) if not isinstance(ind, SelArr) else list(ind.mat())
        c = cdims(a.dims)
        if c is None:
            if len(lst) == 1:
                ind = lst[0]
            else:
                unsupported('np.delete with several indices on a symbolic array')
        else:
            ax = 0 if axis is None else axis
            rm = set()
            for x in lst:
                v = ENG.concretize(num(x).z)
                if not -c[ax] <= v < c[ax]:
                    raise IndexError('index out of bounds')
                rm.add(v % c[ax])
            keep = [i for i in range(c[ax]) if i not in rm]
            if ax == 0:
                return a[array(keep, dtype=int)] if a.ndim == 1 or axis == 0 else unsupported('delete flat')
            unsupported('np.delete axis')
    if a.ndim > 1 and axis != 0:
        unsupported('np.delete axis')
    n = a.dims[0]
    i0 = norm_int_index(ind, n)
    r = a.reader()
    if a.k == 'O':
        lst = list(a)
        del lst[int(numval(i0))]
        return obj_array(lst)
    return SymArr(Storage(lambda i: r((z_ite(z_cmp('<', i[0], i0), i[0], z_add(i[0], zint(1))),) + i[1:]),
                          (z_sub(n, zint(1)),) + tuple(a.dims[1:]), a.k))


def insert(a, ind, v, axis=None):
    a = asarray(a)
    if a.ndim != 1:
        unsupported('insert n-d')
    n = a.dims[0]
    z = num(unwrap0(ind)).z
    if not ENG.decide(z_and(z_cmp('>=', z, zint(0)), z_cmp('<=', z, n))):
        unsupported('insert index')
    r = a.reader()
    x = cast_store(unwrap0(v), a.k)

    def fn(i):
        return ite(z_cmp('==', i[0], z), x, r((z_ite(z_cmp('<', i[0], z), i[0], z_sub(i[0], zint(1))),)))
    return SymArr(Storage(fn, (z_add(n, zint(1)),), a.k))


def np_diff(a, n=1, axis=-1):
    a = asarray(a)
    if a.ndim != 1 or n != 1:
        unsupported('diff')
    return a[1:] - a[:-1]


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if y.ndim != 1:
        unsupported('trapz n-d')
    if x is None:
        d = dx
    else:
        x = asarray(x)
        d = x[1:] - x[:-1]
    return np_sum(d * (y[1:] + y[:-1]) / 2.0)


def binary_dilation(a, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0):
    """scipy.ndimage.binary_dilation with a constant 3x3 structure: a node is set when a neighbour within the
    reflected structure is."""
    if structure is None or iterations != 1 or mask is not None or output is not None or border_value or origin:
        unsupported('binary_dilation options')
    st = asarray(structure)
    a = asarray(a)
    if a.ndim != 2 or st.ndim != 2 or [numval(d) for d in st.dims] != [3, 3]:
        unsupported('binary_dilation structure')
    r, sr = array(a, dtype=bool).reader(), array(st, dtype=bool).reader()
    off = []
    for p in range(3):
        for q in range(3):
            z = sr((zint(p), zint(q))).z
            if is_t(z):
                off.append((p - 1, q - 1))
            elif not is_f(z):
                unsupported('binary_dilation structure')
    n0, n1 = a.dims

    def fn(i):
        out = []
        for p, q in off:
            e, f = z_sub(i[0], zint(p)), z_sub(i[1], zint(q))
            v = r((e, f)).z
            if is_f(v):
                continue
            out.append(z_and(z_cmp('>=', e, zint(0)), z_cmp('<', e, n0), z_cmp('>=', f, zint(0)), z_cmp('<', f, n1), v))
        return SymBool(z_or(*out))
    return SymArr(Storage(fn, a.dims, 'b'))


def gradient(f, *varargs, axis=None, edge_order=1):
    if edge_order != 1:
        unsupported('edge_order')
    f = asanyarray(f)
    nd = f.ndim
    axes = list(range(nd)) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
    if len(varargs) == 0:
        dxs = [1.0] * len(axes)
    elif len(varargs) == 1 and not (isinstance(as_operand(varargs[0]), SymArr) and as_operand(varargs[0]).ndim > 0):
        dxs = [varargs[0]] * len(axes)
    elif len(varargs) == len(axes):
        dxs = list(varargs)
    else:
        raise TypeError('invalid number of arguments')
    out = []
    for ax, dx in zip(axes, dxs):
        n = f.dims[ax]
        if not ENG.decide(z_cmp('>=', n, zint(2))):
            raise ValueError('Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.')
        dx = as_operand(dx)
        if isinstance(dx, SymArr) and dx.ndim > 0:
            if not ENG.decide(z_cmp('==', dx.dims[0], n)):
                raise ValueError('when 1d, distances must match the length of the corresponding dimension')
            xr = dx.reader()
            even = None
        else:
            h = cast(mk_np(unwrap0(dx)), 'f')
            xr = None

        def grad_fn(r, ax=ax, n=n, xr=xr, h=None if isinstance(dx, SymArr) and dx.ndim > 0 else h):
            def at(i, e):
                return r(i[:ax] + (e,) + i[ax + 1:])

            def fn(i):
                e = i[ax]
                last = z_sub(n, zint(1))
                p1, m1 = z_add(e, zint(1)), z_sub(e, zint(1))
                B = lambda op, a, b: binop(op, a, b, npmode=True)
                first = z_cmp('==', e, zint(0))
                lastc = z_cmp('==', e, last)
                if xr is None:
                    fwd = (lambda: B('/', B('-', at(i, zint(1)), at(i, zint(0))), h))
                    bwd = (lambda: B('/', B('-', at(i, last), at(i, z_sub(last, zint(1)))), h))
                    cen = (lambda: B('/', B('-', at(i, p1), at(i, m1)), B('*', 2.0, h)))
                else:
                    X = lambda q: xr((q,))
                    fwd = (lambda: B('/', B('-', at(i, zint(1)), at(i, zint(0))), B('-', X(zint(1)), X(zint(0)))))
                    bwd = (lambda: B('/', B('-', at(i, last), at(i, z_sub(last, zint(1)))), B('-', X(last), X(z_sub(last, zint(1))))))

                    def cen():
                        d1 = B('-', X(e), X(m1))
                        d2 = B('-', X(p1), X(e))
                        s = B('+', d1, d2)
                        a = B('/', B('-', 0.0, d2), B('*', d1, s))
                        b = B('/', B('-', d2, d1), B('*', d1, d2))
                        c = B('/', d1, B('*', d2, s))
                        return B('+', B('+', B('*', a, at(i, m1)), B('*', b, at(i, e))), B('*', c, at(i, p1)))
                if is_t(first):
                    return fwd()
                if is_t(lastc):
                    return bwd()
                if is_f(first) and is_f(lastc):
                    return cen()
                return ite(first, fwd(), ite(lastc, bwd(), cen()))
            return fn
        if isinstance(f, MaskedArray):
            r = f.data.reader()
            mr = f.mask.reader()

            def mfn(i, ax=ax, n=n, mr=mr):
                e = i[ax]
                at = lambda q: mr(i[:ax] + (q,) + i[ax + 1:]).z
                last = z_sub(n, zint(1))
                first = z_cmp('==', e, zint(0))
                lastc = z_cmp('==', e, last)
                m = z_ite(first, z_or(at(zint(0)), at(zint(1))),
                          z_ite(lastc, z_or(at(last), at(z_sub(last, zint(1)))), z_or(at(z_add(e, zint(1))), at(z_sub(e, zint(1))))))
                return SymBool(m)
            gd = SymArr(Storage(grad_fn(lambda i, r=r: cast(r(i), 'f')), f.dims, 'f'))
            # data under the result mask is unspecified in numpy.ma
            gm = SymArr(Storage(mfn, f.dims, 'b'))
            gdr, gmr = gd.reader(), gm.reader()
            junk = sym_array(ENG.fresh('madata'), f.dims, 'f', nan=True).reader()
            gd = SymArr(Storage(lambda i, a=gdr, b=gmr, c=junk: ite(b(i).z, c(i), a(i)), f.dims, 'f'))
            out.append(MaskedArray(gd, gm))
        else:
            r = f.reader()
            out.append(SymArr(Storage(grad_fn(lambda i, r=r: cast(r(i), 'f')), f.dims, 'f')))
    return out[0] if len(out) == 1 else out


# ------------------------------------------------------------------ masked arrays (subset)
class MaskedConst:
    """np.ma.masked: absorbs arithmetic and comparisons, is false."""
    __array_priority__ = 3e5

    def _same(self, *a):
        return self

    def __bool__(self):
        return False

    def __hash__(self):
        return 1


for _nm in ('add radd sub rsub mul rmul truediv rtruediv pow rpow neg abs lt le gt ge eq ne'.split()):
    setattr(MaskedConst, '__%s__' % _nm, MaskedConst._same)
MASKED = MaskedConst()


class MaskedArray:
    __array_priority__ = 2e5

    def __init__(self, data, mask=False, dtype=None):
        if isinstance(data, MaskedArray):
            base = data
            data = base.data
        data = asarray(data)
        if isinstance(mask, (bool, SymBool)) or mask is None:
            mask = full(data.shape, mask if mask is not None else False, bool)
        mask = asarray(mask, dtype=bool)
        self.data = data
        self.mask = mask

    @property
    def dims(self):
        return self.data.dims

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def k(self):
        return self.data.k

    @property
    def dtype(self):
        return self.data.dtype

    def copy(self):
        return MaskedArray(self.data.copy(), self.mask.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def vlen(self):
        return self.data.vlen()

    def transpose(self, *a):
        return MaskedArray(self.data.transpose(*a), self.mask.transpose(*a))

    T = property(lambda s: s.transpose())

    def __getitem__(self, key):
        d, m = self.data[key], self.mask[key]
        if isinstance(d, SymArr):
            return MaskedArray(d, m)
        if ENG.decide(m.z if isinstance(m, SymBool) else (TRUE if m else FALSE)):
            return MASKED
        return d

    def __len__(self):
        v = numval(self.data.dims[0])
        if v is None:
            unsupported('len of a masked array of symbolic length')
        return int(v)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def filled(self, v=None):
        mr, dr = self.mask.reader(), self.data.reader()
        x = cast_store(v, self.k)
        return SymArr(Storage(lambda i: ite(mr(i).z, x, dr(i)), self.dims, self.k))

    def __neg__(self):
        return ew(lambda a: -a, self)

    def __abs__(self):
        return absolute(self)

    def ma_sum(self, axis):
        unsupported('masked sum')

    def ma_mean(self, axis):
        unsupported('masked mean')

    def reader(self):
        return self.data.reader()

    def __hash__(self):
        raise TypeError('unhashable')


def ma_ew(f, *args, k=None):
    datas = [a.data if isinstance(a, MaskedArray) else a for a in args]
    d = ew(f, *datas, k=k)
    m = None
    for a in args:
        if isinstance(a, MaskedArray):
            m = a.mask if m is None else logical_or(m, a.mask)
    if k == 'b':
        return MaskedArray(d, m)
    # masked positions keep unspecified data
    if isinstance(m, SymArr) and len(m.dims) != len(d.dims):
        unsupported('masked broadcast')
    dr, mr = d.reader(), m.reader()
    junk = sym_array(ENG.fresh('madata'), d.dims, 'f', nan=True).reader()
    d2 = SymArr(Storage(lambda i: ite(mr(i).z, junk(i), cast(dr(i), 'f')), d.dims, 'f'))
    return MaskedArray(d2, m)


_install(SymArr)
_install(SelArr)
_install(MaskedArray)

ndarray = SymArr


# ------------------------------------------------------------------ isinstance
PYF = {float: 'f', vfloat: 'f', int: 'i', vint: 'i', bool: 'b', vbool: 'b', complex: 'c', vcomplex: 'c'}


def v_isinstance(o, cls):
    if isinstance(cls, tuple):
        return any(v_isinstance(o, c) for c in cls)
    if cls is SymArr:
        return isinstance(o, (SymArr, SelArr, MaskedArray))
    if cls in PYF:
        t = PYF[cls]
        if isinstance(o, SymReal):
            return t == 'f'           # np.float64 is a float
        if isinstance(o, SymInt):
            return t == 'i' and not o.np
        if isinstance(o, SymBool):
            return (t == 'b' or t == 'i') and not o.np
        return isinstance(o, {'f': float, 'i': int, 'b': bool, 'c': complex}[t])
    if isinstance(o, Sym):
        if cls is float64:
            return isinstance(o, SymReal) and o.np
        if cls is int64:
            return isinstance(o, SymInt) and o.np
        if cls is bool_:
            return isinstance(o, SymBool) and o.np
        if cls is generic:
            return o.np
        if cls is number:
            return o.np and not isinstance(o, SymBool)
        if cls is integer:
            return o.np and isinstance(o, SymInt)
        if cls is floating:
            return o.np and isinstance(o, SymReal)
        return False
    return isinstance(o, cls)
