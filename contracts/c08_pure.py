"""C08: operations that return a new object never touch their operands, and share no data with them."""
import operator as op

from vc.spec import contract
from .common import mk, same_as_ghost
from . import ops, ops2


def arrays(S, o, depth=0):
    """The arrays an object is made of."""
    n = type(o).__name__
    if n in ('ScalarField', 'VectorField'):
        return [o.axe_x, o.axe_y, o.mask] + S.comps(o)
    if n == 'Profile':
        return [o.x, o.y, o.mask]
    if n == 'Points':
        return [o.xy] + ([o.v] if o.v is not None and S.length(o.v) is not None else [])
    if n in ('TemporalScalarFields', 'TemporalVectorFields'):
        return [o.times, o.axe_x, o.axe_y] + [a for k in range(len(o)) for a in arrays(S, o.fields[k])]
    if isinstance(o, (list, tuple)) and depth < 2:
        return [a for x in o for a in arrays(S, x, depth + 1)]
    if hasattr(o, 'shape') and hasattr(o, 'dtype') and len(o.shape) and str(o.dtype) != 'object':
        return [o]
    return []


def parts(o):
    return [o.fields[k] for k in range(len(o))] if hasattr(o, 'fields') else []


def pure(make, same, need=True):
    def f(S):
        o, g, args, call = make(S)
        extra = [(a, h) for a, h in args]
        snaps = [(a, S.snap(a)) for a, h in extra if isinstance(h, str) and h == 'array']
        lists = [(a, list(a)) for a, h in extra if isinstance(h, str) and h == 'list']
        objs = [(a, h) for a, h in extra if not isinstance(h, str)]
        r = S.call(call, o)
        same(S, o, g, 'operand')
        for a, h in objs:
            same(S, a, h, 'second operand')
        for a, s in snaps:
            S.check('array argument untouched', S.unchanged(a, s))
        for a, s in lists:
            S.check('list argument untouched', len(a) == len(s) and all(x is y for x, y in zip(a, s)))
        if not r.ok:
            return
        res = r.value
        if need:
            S.must('an object is returned', res is not None)
        mine = arrays(S, o) + [a for a, s in snaps]
        own = [o] + parts(o)
        for a, h in objs:
            mine += arrays(S, a)
            own += [a] + parts(a)
        for x in (res if isinstance(res, (list, tuple)) else [res]):
            S.check('the result is a new object', not any(y is z for y in [x] + parts(x) for z in own))
        for b in arrays(S, res):
            for a in mine:
                S.check('result shares no data with the operands', S.disjoint(a, b))
    return f


for kind in ops.OPS:
    for name in ops.OPS[kind]:
        kw = dict(ops.BOUNDS.get((kind, name), {}))
        contract('C08', '%s: %s' % (kind, name), ops.FUNCS[kind], **kw)(pure(ops.OPS[kind][name], lambda S, o, g, lb, kind=kind: ops.same(S, getattr(g, 'kind', kind), o, g, lb)))
for kind in ops2.PURE:
    for name in ops2.PURE[kind]:
        kw = dict(ops2.BOUNDS[(kind, name)])
        kw.setdefault('con_runs', 25)
        contract('C08', '%s: %s' % (kind, name), ops2.FUNCS[(kind, name)], **kw)(pure(ops2.PURE[kind][name], ops2.same, False))
