"""Loads the real sources (IMTreatment from /repo, Unum from the runtime venv) onto the symbolic array theory.

What the loading drops or changes, exhaustively:
  * `import numpy` binds the symbolic numpy of nparr.py; scipy, matplotlib, PIL, h5py, ... bind inert stubs whose
    use inside a verified path makes that path `unsupported` (never silently skipped);
  * the builtins isinstance/int/float/bool/len/range/abs/min/max/sum/any/all/round/sorted/print are replaced by
    versions that understand symbolic values;
  * an `if` whose body is only `warnings.warn(...)` has its condition evaluated but does not fork;
  * loops/comprehensions over symbolic-length arrays are handed to the loop rule (see loops.py) .
The text that is executed is otherwise the file in the working tree, re-read on every run.
"""
import ast
import builtins
import os
import sys
import types
import warnings

from . import nparr as A
from .core import ENG, Sym, SymBool, SymInt, SymReal, unsupported, zint, num, VCError, z_cmp
from . import loops

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = os.environ.get('VERIF_VENV', '/opt/venv/lib/python3.12/site-packages')

STDLIB = {'copy', 're', 'functools', 'itertools', 'math', 'os', 'sys', 'time', 'json', 'types', 'operator', 'string',
          'datetime', 'collections', 'pickle', 'gzip', 'glob', 'shutil', 'hashlib', 'multiprocessing', 'warnings',
          'threading', 'traceback', 'typing', 'subprocess', 'inspect', 'imghdr', 'tempfile', 'random', 'platform',
          '__future__', 'abc', 'enum', 'dataclasses', 'contextlib', 'numbers', 'numbers', 'queue', 'bz2', 'struct', 'io'}

LOADED_FILES = {}


MODELS = {'scipy.ndimage.binary_dilation': A.binary_dilation}


class Stub:
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__') and a not in ('__version__',):
            raise AttributeError(a)
        s = Stub(self._n + '.' + a)
        self.__dict__[a] = s
        return s

    def __call__(self, *a, **k):
        if ENG.active:
            if self._n in MODELS:
                return MODELS[self._n](*a, **k)
            unsupported('call of %s' % self._n)
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return Stub(self._n + '()')

    def __mro_entries__(self, bases):
        return (object,)

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return Stub(self._n + '[]')

    def __setattr__(self, a, v):
        self.__dict__[a] = v

    def __or__(self, o):
        return self
    __ror__ = __or__


class Warn:
    @staticmethod
    def warn(*a, **k):
        return None

    def __getattr__(self, a):
        return lambda *x, **k: None


def fake_numpy():
    np = types.ModuleType('numpy')
    d = dict(
        ndarray=A.SymArr, array=A.array, asarray=A.asarray, asanyarray=A.asanyarray, zeros=A.zeros, ones=A.ones,
        empty=A.empty, full=A.full, zeros_like=A.zeros_like, ones_like=A.ones_like, empty_like=A.empty_like,
        full_like=A.full_like, arange=A.arange, linspace=A.linspace, any=A.np_any, all=A.np_all, sum=A.np_sum,
        mean=A.np_mean, average=A.np_mean, min=A.np_min, max=A.np_max, amin=A.np_min, amax=A.np_max, std=A.np_std,
        var=A.np_var, argmin=A.np_argmin, argmax=A.np_argmax, argsort=A.np_argsort, sort=A.np_sort,
        searchsorted=A.np_searchsorted, cumsum=A.np_cumsum, prod=A.np_prod, where=A.np_where, argwhere=A.argwhere,
        nonzero=A.np_nonzero, logical_or=A.logical_or, logical_and=A.logical_and, logical_xor=A.logical_xor,
        logical_not=A.logical_not, isnan=A.isnan, isfinite=A.isfinite, isinf=A.isinf, abs=A.absolute,
        absolute=A.absolute, sqrt=A.sqrt, power=A.power, cos=A.cos, sin=A.sin, exp=A.exp, log=A.log,
        arccos=A.arccos, arctan=A.arctan, hypot=A.hypot, arctan2=A.arctan2, floor=A.floor, ceil=A.ceil, round=A.np_round, around=A.np_round,
        sign=A.sign, isclose=A.isclose, allclose=A.allclose, maximum=A.maximum, minimum=A.minimum,
        meshgrid=A.meshgrid, transpose=A.transpose, rot90=A.rot90, flipud=A.flipud, fliplr=A.fliplr, flip=A.flip,
        concatenate=A.concatenate, append=A.append, hstack=A.hstack, vstack=A.vstack, delete=A.delete,
        insert=A.insert, diff=A.np_diff, trapz=A.trapz, gradient=A.gradient,
        pi=A.PI, inf=A.INF, nan=float('nan'), NaN=float('nan'), newaxis=None,
        float=A.vfloat, int=A.vint, bool=A.vbool, complex=A.vcomplex, object=object,
        float64=A.float64, float32=A.float32, float16=A.float16, int64=A.int64, int32=A.int32, int16=A.int16,
        int8=A.int8, uint8=A.uint8, uint=A.uint, bool_=A.bool_, generic=A.generic, number=A.number,
        integer=A.integer, floating=A.floating,
        invert=lambda a: ~A.as_operand(a), negative=lambda a: -A.as_operand(a),
        add=lambda a, b: A.arr_binop('+', a, b), subtract=lambda a, b: A.arr_binop('-', a, b),
        multiply=lambda a, b: A.arr_binop('*', a, b), divide=lambda a, b: A.arr_binop('/', a, b),
        true_divide=lambda a, b: A.arr_binop('/', a, b),
        equal=lambda a, b: A.arr_cmp('==', a, b), not_equal=lambda a, b: A.arr_cmp('!=', a, b),
        less=lambda a, b: A.arr_cmp('<', a, b), greater=lambda a, b: A.arr_cmp('>', a, b),
        less_equal=lambda a, b: A.arr_cmp('<=', a, b), greater_equal=lambda a, b: A.arr_cmp('>=', a, b),
        ravel=lambda a: A.asarray(a).ravel(), reshape=lambda a, s: A.asarray(a).reshape(s),
        copy=lambda a: A.array(a), ndim=lambda a: A.asarray(a).ndim, shape=lambda a: A.asarray(a).shape,
        size=lambda a: A.asarray(a).size, real=lambda a: a, array_equal=lambda a, b: array_equal(a, b),
        square=lambda a: A.as_operand(a) * a, squeeze=lambda a: A.asarray(a).squeeze(),
        nanmin=lambda a, **k: nan_red(A.np_min, a, **k), nanmax=lambda a, **k: nan_red(A.np_max, a, **k),
        nanmean=lambda a, **k: nan_red(A.np_mean, a, **k), nansum=lambda a, **k: nan_red(A.np_sum, a, **k),
        count_nonzero=lambda a: A.np_sum(A.array(a, dtype=bool)),
        ndindex=ndindex, dtype=A.DType, expand_dims=lambda a, axis: expand_dims(a, axis),
        stack=lambda l, axis=0: A.array(list(l)) if axis == 0 else unsupported('stack axis'),
        tile=lambda *a: unsupported('tile'), roll=lambda *a: unsupported('roll'),
        dot=np_dot, outer=np_outer, unique=lambda *a, **k: unsupported('unique'),
        __version__='1.23.5', errstate=ErrState, seterr=lambda **k: {}, broadcast_to=broadcast_to,
        column_stack=lambda l: A.stack_cols([A.asarray(x) for x in l]),
    )
    for k, v in d.items():
        setattr(np, k, v)
    ma = types.ModuleType('numpy.ma')
    ma.MaskedArray = A.MaskedArray
    ma.masked_array = A.MaskedArray
    ma.array = A.MaskedArray
    np.ma = ma
    for nm in ('random', 'linalg', 'fft', 'lib', 'testing', 'core'):
        setattr(np, nm, Stub('numpy.' + nm))

    def missing(a):
        if a.startswith('__'):
            raise AttributeError(a)
        return Stub('numpy.' + a)
    np.__getattr__ = missing
    return np


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def broadcast_to(a, shape):
    a = A.asarray(a)
    dims = A._shape(shape)
    return A.SymArr(A.Storage(A.breader(a, dims, check=True), dims, a.k))


def expand_dims(a, axis):
    a = A.asarray(a)
    dims = list(a.dims)
    dims.insert(axis, zint(1))
    vm = tuple(m if m[0] == 'f' else ('d', m[1] + (1 if m[1] >= axis else 0), m[2], m[3]) for m in a.vm)
    return A.SymArr(a.st, dims, vm)


def nan_red(f, a, axis=None):
    if axis is not None:
        unsupported('nan-reduction with axis')
    a = A.asarray(a)
    return f(a[~A.isnan(a)])


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    import itertools
    if not all(isinstance(s, int) for s in shape):
        unsupported('ndindex over symbolic shape')
    return iter(itertools.product(*[range(s) for s in shape]))


def np_dot(a, b):
    a, b = A.asarray(a), A.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return A.np_sum(a * b)
    c, d = A.cdims(a.dims), A.cdims(b.dims)
    if c is None or d is None or len(c) != 2:
        unsupported('dot')
    if len(d) == 2:
        return A.array([[sum([a.at(i, k) * b.at(k, j) for k in range(c[1])], 0) for j in range(d[1])] for i in range(c[0])])
    return A.array([sum([a.at(i, k) * b.at(k) for k in range(c[1])], 0) for i in range(c[0])])


def np_outer(a, b):
    a, b = A.asarray(a), A.asarray(b)
    ra, rb = a.reader(), b.reader()
    return A.SymArr(A.Storage(lambda i: A.binop('*', ra((i[0],)), rb((i[1],)), npmode=True), (a.dims[0], b.dims[0]), A.join_k(a.k, b.k)))


def array_equal(a, b):
    a, b = A.asarray(a), A.asarray(b)
    if a.ndim != b.ndim:
        return False
    for d, e in zip(a.dims, b.dims):
        if not ENG.decide(z_cmp('==', d, e)):
            return False
    return A.np_all(A.arr_cmp('==', a, b))


# ------------------------------------------------------------------ builtins
def v_len(o):
    if hasattr(o, 'vlen'):
        return o.vlen()
    return len(o)


def v_range(*a):
    vals = [A.unwrap0(x) for x in a]
    if all(isinstance(x, int) for x in vals):
        return range(*vals)
    for x in vals:
        if isinstance(x, (SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    return A.arange(*vals)


def v_abs(x):
    return abs(x)


def _mm(kind):
    def f(*a, **k):
        if k:
            return getattr(builtins, kind)(*a, **k)
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (A.SymArr, A.SelArr)):
                return A.extremum(x, None, kind)
            a = list(x)
        if any(isinstance(x, Sym) for x in a):
            r = a[0]
            for y in a[1:]:
                # python semantics: compare and pick
                from .core import ite, compare
                if A.is_inf(r) or A.is_inf(y):
                    take = bool(compare('<' if kind == 'min' else '>', y, r))
                    r = y if take else r
                else:
                    c = compare('<' if kind == 'min' else '>', y, r)
                    r = ite(c.z, y, r)
            return r
        return getattr(builtins, kind)(a)
    return f


def v_sum(x, start=0):
    if isinstance(x, (A.SymArr, A.SelArr)):
        r = A.np_sum(x, 0 if getattr(x, 'ndim', 1) > 1 else None)
        return r + start if not (isinstance(start, int) and start == 0) else r
    r = start
    for v in x:
        r = r + v
    return r


def v_any(x):
    if isinstance(x, (A.SymArr, A.SelArr)):
        if x.ndim > 1:
            return any(list(x))
        r = A.np_any(x)
        return SymBool(r.z, False)
    return any(x)


def v_all(x):
    if isinstance(x, (A.SymArr, A.SelArr)):
        if x.ndim > 1:
            return all(list(x))
        r = A.np_all(x)
        return SymBool(r.z, False)
    return all(x)


def v_round(x, n=None):
    if isinstance(x, Sym):
        r = A.np_round(x, n or 0)
        return A.to_int(r) if n is None else r
    return round(x) if n is None else round(x, n)


def v_sorted(x, **k):
    if isinstance(x, (A.SymArr, A.SelArr)):
        return list(A.np_sort(x))
    return sorted(x, **k)


def v_type(*a):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, SymReal):
            return A.float64 if o.np else A.vfloat
        if isinstance(o, SymInt):
            return A.int64 if o.np else A.vint
        if isinstance(o, SymBool):
            return A.bool_ if o.np else A.vbool
        if isinstance(o, A.SelArr):
            return A.SymArr
        if type(o) is int:
            return A.vint
        if type(o) is float:
            return A.vfloat
        if type(o) is bool:
            return A.vbool
    return type(*a)


def v_isinstance(o, cls):
    def ok(c):
        if isinstance(c, tuple):
            return any(ok(x) for x in c)
        if isinstance(c, Stub):
            return False
        return A.v_isinstance(o, c)
    return ok(cls)


MODS = {}


class Loader:
    def __init__(self):
        self.np = fake_numpy()
        self.bt = dict(vars(builtins))
        self.bt.update(isinstance=v_isinstance, len=v_len, range=v_range, int=A.vint, float=A.vfloat, bool=A.vbool,
                       complex=A.vcomplex, min=_mm('min'), max=_mm('max'), sum=v_sum, any=v_any, all=v_all,
                       round=v_round, type=v_type, exec=self.v_exec, sorted=v_sorted, __import__=self.imp, print=lambda *a, **k: None,
                       vc_dontcare_=dontcare, vc_for_=loops.vc_for, vc_comp_=loops.vc_comp, vc_symiter_=loops.symiter)
        self.roots = {'IMTreatment': REPO, 'unum': VENV}

    def v_exec(self, code, g=None, l=None):
        g = {} if g is None else g
        g.setdefault('__builtins__', self.bt)
        exec(code, g, l if l is not None else g)

    def stub(self, name):
        if name not in MODS:
            MODS[name] = Stub(name)
        return MODS[name]

    def load(self, fullname):
        if fullname in MODS:
            return MODS[fullname]
        top = fullname.split('.')[0]
        rel = fullname.replace('.', '/')
        base = os.path.join(self.roots[top], rel)
        pkg = os.path.isdir(base)
        path = os.path.join(base, '__init__.py') if pkg else base + '.py'
        if pkg and not os.path.exists(path):
            # namespace package
            m = types.ModuleType(fullname)
            m.__path__ = [base]
            MODS[fullname] = m
            return m
        if not os.path.exists(path):
            raise ModuleNotFoundError(fullname)
        parent = fullname.rpartition('.')[0]
        if parent:
            self.load(parent)
            if fullname in MODS:
                return MODS[fullname]
        m = types.ModuleType(fullname)
        m.__file__ = path
        m.__builtins__ = self.bt
        m.__dict__['__builtins__'] = self.bt
        m.__package__ = fullname if pkg else parent
        if pkg:
            m.__path__ = [base]
        MODS[fullname] = m
        if parent:
            setattr(MODS[parent], fullname.rpartition('.')[2], m)
        src = open(path, encoding='utf-8').read()
        LOADED_FILES[path] = src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        if top == 'IMTreatment':
            tree = loops.Transform().visit(tree)
            ast.fix_missing_locations(tree)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return MODS[top]
        if top == 'numpy':
            if name == 'numpy':
                return self.np
            return getattr(self.np, name.split('.')[1]) if fromlist else self.np
        if top == 'warnings':
            return Warn()
        if top in STDLIB:
            return __import__(name, globals, locals, fromlist, 0)
        s = self.stub(top)
        if fromlist:
            for p in name.split('.')[1:]:
                s = getattr(s, p)
        return s


def dontcare(th):
    ENG.dontcare += 1
    try:
        th()
    finally:
        ENG.dontcare -= 1
    return False


_LOADER = None


def loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
    return _LOADER


def module(name):
    return loader().load(name)
