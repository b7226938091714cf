"""C09: in-place and out-of-place forms of an operation agree."""
from vc.spec import contract
from .common import mk, same_fields, same_as_ghost
from . import ops2

BORDER = dict(unbounded=False, why_bounded='for all sizes it follows from the two C11 contracts of crop_masked_border, whose common postcondition determines the result')
SMALL = dict(unbounded=False, why_bounded='loops over the nodes')


def forms(kind, call, mkw=None):
    def f(S):
        o, g = mk(S, kind, **(mkw or {}))
        kw = call(S, g)
        name = kw.pop('_m')
        o2 = o.copy()
        r1 = S.call(getattr(o2, name), inplace=False, **kw)
        r2 = S.call(getattr(o, name), inplace=True, **kw)
        S.check('both forms accept or reject the arguments', r1.ok == r2.ok, r2 if r1.ok else r1)
        if not (r1.ok and r2.ok):
            return
        S.must('the out-of-place form returns an object', S.isinst(r1.value, type(o)))
        same_fields(S, r1.value, o)
        if name not in ('smooth',):
            same_as_ghost(S, o2, g, 'source of the out-of-place form')
    return f


def table(kind):
    R, I = lambda S, n, **k: S.real(n, **k), lambda S, n, a, b: S.int(n, a, b)
    yield 'crop to coordinates', lambda S, g: dict(_m='crop', intervx=[S.near('a', [g.x]), S.near('b', [g.x])], intervy=[S.near('c', [g.y]), S.near('d', [g.y])]), {}, {}
    yield 'crop to x interval', lambda S, g: dict(_m='crop', intervx=[S.near('a', [g.x]), S.near('b', [g.x])]), {}, {}
    yield 'crop to indices', lambda S, g: dict(_m='crop', ind=True, intervx=[S.int('a', -1, g.nx), S.int('b', -1, g.nx + 1)], intervy=[S.int('c', 0, g.ny), S.int('d', 0, g.ny + 1)]), {}, {}
    yield 'crop, default window', lambda S, g: dict(_m='crop'), {}, {}
    for a in (0, 90, 180, 270, -90, 450):
        yield 'rotate %d' % a, lambda S, g, a=a: dict(_m='rotate', angle=a), {}, {}
    yield 'rotate any angle', lambda S, g: dict(_m='rotate', angle=S.choice('angle', [45, 91, 30.5, -10])), {}, {}
    for ax in ('x', 'y', 'v', 'xyv'):
        yield 'scale %s by numbers' % ax, lambda S, g, ax=ax: dict({'scale' + c: S.real('s' + c, nz=True) for c in ax}, _m='scale'), {}, {}
        yield 'scale %s by quantities' % ax, lambda S, g, ax=ax: dict({'scale' + c: S.real('s' + c, nz=True) * S.make_unit('kg') for c in ax}, _m='scale'), {}, {}
    yield 'extend', lambda S, g: dict(_m='extend', nmb_left=S.int('l', 0, 3), nmb_right=S.int('r', 0, 3), nmb_up=S.int('u', 0, 3), nmb_down=S.int('d', 0, 3)), {}, {}
    if kind == 'sf':
        yield 'extend with a value', lambda S, g: dict(_m='extend', nmb_left=S.int('l', 0, 3), nmb_up=S.int('u', 0, 3), value=S.real('v')), {}, {}
    yield 'fill with a value', lambda S, g: dict(_m='fill', kind='value', value=S.real('v')), {}, {}
    yield 'fill with a value and crop', lambda S, g: dict(_m='fill', kind='value', value=S.real('v'), crop=True), {}, SMALL
    yield 'crop masked border', lambda S, g: dict(_m='crop_masked_border'), {}, BORDER
    yield 'crop masked border, hard', lambda S, g: dict(_m='crop_masked_border', hard=True), {}, dict(SMALL, sizes=({'nx': 2, 'ny': 2},))
    for fct in (2, 3):
        yield 'reduce resolution by %d' % fct, lambda S, g, fct=fct: dict(_m='reduce_spatial_resolution', fact=fct), {}, \
            dict(SMALL, sizes=({'nx': fct, 'ny': fct + 1}, {'nx': 2 * fct, 'ny': fct}))
    yield 'reduce resolution by 1', lambda S, g: dict(_m='reduce_spatial_resolution', fact=1), {}, {}


for kind, cls in (('sf', 'ScalarField'), ('vf', 'VectorField')):
    for name, call, mkw, bounds in table(kind):
        m = name.split(',')[0].split(' ')[0]
        contract('C09', '%s: %s' % (kind, name), ['%s.%s' % (cls, {'reduce': 'reduce_spatial_resolution'}.get(m, m)), 'Field.' + m], **bounds)(forms(kind, call, mkw))


# ---- profiles, point sets, sets of fields, and the remaining transformations of fields
def eqnan(S, a, b):
    return S.Or(S.eq(a, b), S.And(S.isnan(a), S.isnan(b)))


def same_objects(S, a, b, kind, label='the two forms'):
    S.must(label + ': same kind', type(a) is type(b))
    if kind in ('sf', 'vf'):
        same_fields(S, a, b, label)
    elif kind == 'prof':
        n = S.length(a.x)
        S.check(label + ': same number of samples', S.And(*[S.eqn(S.length(v), n) for v in (a.y, a.mask, b.x, b.y, b.mask)]))
        S.check_all(label + ': same samples', (n,), lambda i: S.And(S.eq(S.el(a.x, i), S.el(b.x, i)), S.iff(S.el(a.mask, i), S.el(b.mask, i)), eqnan(S, S.el(a.y, i), S.el(b.y, i))))
        S.check(label + ': same units', S.And(S.usame(a.unit_x, b.unit_x), S.usame(a.unit_y, b.unit_y)))
    elif kind == 'pts':
        n = S.dim(a.xy, 0)
        S.check(label + ': same number of points', S.And(S.eqn(S.dim(b.xy, 0), n), S.eqn(S.length(a.v), S.length(b.v))))
        S.check_all(label + ': same positions', (n,), lambda i: S.And(*[eqnan(S, S.el(a.xy, i, k), S.el(b.xy, i, k)) for k in (0, 1)]))
        S.check_all(label + ': same values', (S.length(a.v),), lambda i: eqnan(S, S.el(a.v, i), S.el(b.v, i)))
        S.check(label + ': same units', S.And(*[S.usame(getattr(a, u), getattr(b, u)) for u in ('unit_x', 'unit_y', 'unit_v')]))
    else:
        S.must(label + ': same number of fields', len(a.fields) == len(b.fields))
        S.check(label + ': same number of times', S.And(S.eqn(S.length(a.times), len(a.fields)), S.eqn(S.length(b.times), len(b.fields))))
        for k in range(len(a.fields)):
            S.check(label + ': same times', S.eq(S.el(a.times, k), S.el(b.times, k)))
            same_fields(S, a.fields[k], b.fields[k], '%s, field %d' % (label, k))
        for nm in ('axe_x', 'axe_y'):
            x, y = getattr(a, nm), getattr(b, nm)
            S.check(label + ': same axis lengths', S.eqn(S.length(x), S.length(y)))
            S.check_all(label + ': same axes', (S.length(x),), lambda i, x=x, y=y: S.eq(S.el(x, i), S.el(y, i)))
        S.check(label + ': same units', S.And(*[S.usame(getattr(a, u), getattr(b, u)) for u in ('unit_x', 'unit_y', 'unit_times')]))


def forms2(kind, meth, kw, mkw, refuse_same=True):
    def f(S):
        o, g = ops2.make(S, kind, **mkw)
        args = kw(S, g)
        o2 = o.copy()
        r1 = S.call(getattr(o2, meth), inplace=False, **args)
        r2 = S.call(getattr(o, meth), inplace=True, **args)
        S.check('both forms accept or reject the arguments', r1.ok == r2.ok, r2 if r1.ok else r1)
        if not (r1.ok and r2.ok):
            return
        S.must('the out-of-place form returns an object', S.isinst(r1.value, type(o)))
        S.check('the out-of-place form returns a new object', r1.value is not o2)
        same_objects(S, r1.value, o, kind)
        ops2.same(S, o2, g, 'source of the out-of-place form')
    return f


SMP = dict(unbounded=False, sizes=(), why_bounded='outside the array theory (scipy) or one path per mask: sampled only', con_runs=30)
SZN = ({'n': 2}, {'n': 3})
LOOPN = dict(unbounded=False, sizes=SZN, why_bounded='loop over the samples')


def E(name, meth, kw, mkw=None, **bounds):
    return name, meth, kw, mkw or {}, bounds


def table2(kind):
    if kind == 'prof':
        yield E('crop to positions', 'crop', lambda S, g: dict(intervx=[S.near('a', [g.x]), S.near('b', [g.x])]), {'nan': True}, sizes=SZN)
        yield E('crop to indices', 'crop', lambda S, g: dict(intervx=[S.int('a', -1, g.n + 1), S.int('b', -1, g.n + 1)], ind=True), {'nan': True}, sizes=SZN)
        yield E('crop to values', 'crop', lambda S, g: dict(intervy=[S.real('a'), S.real('b')]), {'nan': True}, **LOOPN)
        yield E('crop masked border', 'crop_masked_border', lambda S, g: {}, {'nan': True}, **LOOPN)
        yield E('scale by numbers', 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True)), {'nan': True}, sizes=SZN)
        yield E('scale by quantities', 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True) * S.make_unit('s'), scaley=S.real('sy', nz=True) * S.make_unit('kg')), {'nan': True}, sizes=SZN)
        yield E('fill with a value', 'fill', lambda S, g: dict(kind='value', fill_value=S.real('v')), {'nan': True}, sizes=SZN)
        yield E('fill with a value and crop', 'fill', lambda S, g: dict(kind='value', fill_value=S.real('v'), crop=True), {'nan': True}, **LOOPN)
        yield E('fill by interpolation', 'fill', lambda S, g: dict(kind='slinear'), {'nan': True}, **SMP)
        yield E('fill by interpolation and crop', 'fill', lambda S, g: dict(kind='slinear', crop=True), {'nan': True}, **SMP)
        yield E('even spacing', 'evenly_space', lambda S, g: {}, {'mask': False}, **SMP)
        yield E('smooth', 'smooth', lambda S, g: dict(size=3, tos=S.choice('tos', ['uniform', 'gaussian'])), {'mask': False}, **SMP)
        yield E('removal of NaN samples', 'remove_nans', lambda S, g: {}, {'nan': True}, **SMP)
        yield E('removal of duplicates', 'remove_doublons', lambda S, g: dict(method=S.choice('m', ['average', 'min', 'max'])), {'mask': False}, **SMP)
        yield E('removal of outliers', 'remove_marginal_values', lambda S, g: dict(fact=S.choice('f', [0.5, 1, 2])), {'mask': False}, **SMP)
        yield E('finer resolution', 'augment_resolution', lambda S, g: dict(fact=S.choice('f', [2, 3])), {'mask': False}, **SMP)
    elif kind == 'pts':
        for v in (True, False):
            t, mkw = ('' if v else ' (no values)'), {'v': v}
            yield E('crop' + t, 'crop', lambda S, g: dict(intervx=[S.real('a'), S.real('b')], intervy=[S.real('c'), S.real('d')]), mkw, sizes=SZN)
            yield E('scale by numbers' + t, 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True), scalev=S.real('sv', nz=True)), mkw, sizes=SZN)
            yield E('scale by quantities' + t, 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True) * S.make_unit('s'), scaley=2.0 * S.make_unit('kg'), scalev=3.0 * S.make_unit('m')), mkw, sizes=SZN)
            yield E('rotate' + t, 'rotate', lambda S, g: dict(angle=S.real('a')), mkw, sizes=SZN)
            for ref in ('x', 'y') + (('v',) if v else ()):
                yield E('sort by %s%s' % (ref, t), 'sort', lambda S, g, ref=ref: dict(ref=ref), mkw, **LOOPN)
            yield E('removal of NaN points' + t, 'remove_nans', lambda S, g: {}, mkw, **LOOPN)
            yield E('smooth' + t, 'smooth', lambda S, g: {}, dict(mkw, lo=2), **SMP)
            yield E('finer resolution' + t, 'augment_resolution', lambda S, g: {}, dict(mkw, lo=2), **SMP)
        yield E('crop to values', 'crop', lambda S, g: dict(intervv=[S.real('a'), S.real('b')]), {}, sizes=SZN)
        yield E('crop to indices', 'crop', lambda S, g: dict(intervv=[0, S.int('b', 0, g.n)], ind=True), {}, sizes=SZN)
        yield E('removal of duplicates', 'remove_doublons', lambda S, g: {}, {}, **SMP)
    elif kind in ('tsf', 'tvf'):
        K2 = {'K': 2}
        tiny = dict(unbounded=False, sizes=({'nx': 2, 'ny': 2},), why_bounded='loops over the nodes')
        yield E('crop', 'crop', lambda S, g: dict(intervx=[S.el(g.x, 0), S.near('b', [g.x])], intervy=[S.near('c', [g.y]), S.el(g.y, g.ny - 1)]), K2)
        yield E('crop in time', 'crop', lambda S, g: dict(intervt=[S.near('ta', [S.np.array(g.t)]) if not S.symbolic else S.real('ta'), g.t[1]]), K2)
        yield E('crop to indices', 'crop', lambda S, g: dict(intervx=[0, S.int('b', 0, g.nx)], intervt=[S.choice('ta', [0, 1]), 1], ind=True), K2)
        for a in (90, 180, 270):
            yield E('rotate %d' % a, 'rotate', lambda S, g, a=a: dict(angle=a), K2)
        yield E('scale by numbers', 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True), scaley=-2.0, scalev=S.real('sv', nz=True), scalet=S.real('st', nz=True)), K2)
        yield E('scale by quantities', 'scale', lambda S, g: dict(scalex=S.real('sx', nz=True) * S.make_unit('s'), scalev=2.0 * S.make_unit('kg'), scalet=-2.0 * S.make_unit('m')), K2)
        yield E('extend', 'extend', lambda S, g: dict(nmb_left=S.int('l', 0, 3), nmb_right=S.int('r', 0, 3), nmb_up=S.int('u', 0, 3), nmb_down=S.int('d', 0, 3)), K2)
        yield E('fill with a value', 'fill', lambda S, g: dict(tof='spatial', kind='value', value=S.real('v')), K2)
        yield E('fill in time', 'fill', lambda S, g: dict(tof='temporal', kind=S.choice('k', ['value', 'linear']), value=2.0), {'K': 4}, **SMP)
        yield E('crop masked border', 'crop_masked_border', lambda S, g: {}, K2, **tiny)
        yield E('coarsening', 'reduce_spatial_resolution', lambda S, g: dict(fact=2), K2, **tiny)
        yield E('time coarsening', 'reduce_temporal_resolution', lambda S, g: dict(nmb_in_interval=2), {'K': 3})
        yield E('time coarsening without mean', 'reduce_temporal_resolution', lambda S, g: dict(nmb_in_interval=2, mean=False), {'K': 3})
        yield E('time refinement', 'augment_temporal_resolution', lambda S, g: dict(fact=2), K2, **tiny)
        yield E('time refinement by 1', 'augment_temporal_resolution', lambda S, g: dict(fact=1), K2)
        yield E('mirroring', 'mirroring', lambda S, g, kind=kind: dict(direction=S.choice('d', ['x', 'y']), position=S.el(g.x, 0) - 50.0, interp='value', value=1.0 if kind == 'tsf' else [1.0, 2.0]), {'K': 2, 'uniform': True, 'mask': False}, **SMP)
        yield E('smooth', 'smooth', lambda S, g: {}, {'K': 2, 'mask': False}, **SMP)
    else:
        yield E('mirroring', 'mirroring', lambda S, g: (lambda d: dict(direction=d, position=S.el(g.x if d == 'x' else g.y, 0), mir_coef=S.choice('c', [1, -1, 2.0])))(S.choice('d', ['x', 'y'])), {'uniform': True}, **SMP)
        yield E('mirroring on the far side', 'mirroring', lambda S, g: (lambda d: dict(direction=d, position=S.el(g.x, g.nx - 1) if d == 'x' else S.el(g.y, g.ny - 1)))(S.choice('d', ['x', 'y'])), {'uniform': True}, **SMP)
        yield E('smooth', 'smooth', lambda S, g: dict(tos=S.choice('tos', ['uniform', 'gaussian'])), {'mask': False}, **SMP)
        yield E('fill by interpolation', 'fill', lambda S, g: dict(kind=S.choice('k', ['nearest', 'linear'])), {}, **SMP)


for kind in ('prof', 'pts', 'tsf', 'tvf', 'sf', 'vf'):
    for name, meth, kw, mkw, bounds in table2(kind):
        contract('C09', '%s: %s (both forms)' % (kind, name) if kind in ('sf', 'vf') else '%s: %s' % (kind, name), ['%s.%s' % (ops2.CLS[kind], meth)], **bounds)(forms2(kind, meth, kw, mkw))
