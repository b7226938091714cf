"""More operations that return a new object or answer a query: profiles, point sets, sets of fields, queries on fields.

PURE[kind][name] -> builder(S) -> (object, ghost, arguments, call), as in ops.OPS."""
import operator as op

from .common import mk, same_as_ghost
from .tcommon import set_is

PURE = {'prof': {}, 'pts': {}, 'tsf': {}, 'tvf': {}, 'sf': {}, 'vf': {}}
BOUNDS = {}
FUNCS = {}
SZ = ({'n': 2}, {'n': 3})
LOOPS = dict(unbounded=False, why_bounded='loop over the samples', sizes=SZ)
SAMPLED = dict(unbounded=False, why_bounded='outside the array theory (scipy) or one path per mask: sampled only', sizes=())
NODES = dict(unbounded=False, why_bounded='loops over the nodes')
CLS = {'prof': 'Profile', 'pts': 'Points', 'tsf': 'TemporalScalarFields', 'tvf': 'TemporalVectorFields', 'sf': 'ScalarField', 'vf': 'VectorField'}


def make(S, kind, **k):
    if kind == 'prof':
        o, g = S.prof(**k)
    elif kind == 'pts':
        o, g = S.pts(**k)
    elif kind in ('tsf', 'tvf'):
        o, g = S.tf(kind[1:], **k)
    else:
        o, g = mk(S, kind, **k)
    g.kind = kind
    return o, g


def same(S, o, g, label):
    if g.kind == 'prof':
        S.prof_same(label, o, g)
    elif g.kind == 'pts':
        S.pts_same(label, o, g)
    elif g.kind in ('tsf', 'tvf'):
        set_is(S, o, g, label=label)
    else:
        same_as_ghost(S, o, g, label)


def add(kind, name, fn, call, mkw=None, **bounds):
    def b(S):
        o, g = make(S, kind, **(mkw or {}))
        return o, g, [], (lambda x: call(S, x, g))
    put(kind, name, fn, b, bounds)


def put(kind, name, fn, b, bounds):
    PURE[kind][name] = b
    FUNCS[(kind, name)] = ['%s.%s' % (CLS[kind], f) for f in fn.split()]
    if kind in ('prof', 'pts'):
        bounds.setdefault('sizes', SZ)
    BOUNDS[(kind, name)] = bounds


AR = (('plus', op.add, '__add__'), ('minus', op.sub, '__sub__'), ('times', op.mul, '__mul__'), ('over', op.truediv, '__truediv__'))

# ---- profiles
add('prof', 'copy', 'copy', lambda S, o, g: o.copy())
add('prof', 'negation', '__neg__', lambda S, o, g: -o)
add('prof', 'square', '__pow__', lambda S, o, g: o ** 2)
add('prof', 'comparison', '__eq__', lambda S, o, g: o == o.copy(), **LOOPS)
for nm, f, fn in AR:
    add('prof', '%s number' % nm, fn, lambda S, o, g, f=f: f(o, S.real('k', nz=True)))
    add('prof', '%s quantity' % nm, fn, lambda S, o, g, f=f: f(o, 2.0 * g.uy))

    def b(S, f=f):
        p, g = make(S, 'prof', nan=True)
        q, h = make(S, 'prof', tag='q', n=g.n, x=g.x, units=(g.ux, S.make_unit('km/s')))
        return p, g, [(q, h)], (lambda x: f(x, q))
    put('prof', '%s profile' % nm, fn, b, {})
for ip in (True, False):
    def b(S, ip=ip):
        p, g = make(S, 'prof', nan=True)
        iv = [S.int('a', 0, g.n), S.int('b', 0, g.n)] if ip else [S.near('a', [g.x]), S.near('b', [g.x])]
        return p, g, [(iv, 'list')], (lambda x: x.crop(intervx=iv, ind=ip))
    put('prof', 'crop to %s' % ('indices' if ip else 'positions'), 'crop', b, {})


def b(S):
    p, g = make(S, 'prof', nan=True)
    iv = [S.real('a'), S.real('b')]
    return p, g, [(iv, 'list')], (lambda x: x.crop(intervy=iv))


put('prof', 'crop to values', 'crop', b, dict(LOOPS))


def b(S):
    p, g = make(S, 'prof')
    q, h = make(S, 'prof', tag='q', n=S.n('k', 1))
    return p, g, [(q, h)], (lambda x: (x.copy().add_points(q)))


put('prof', 'insertion into a copy', 'copy add_points', b, dict(sizes=({'n': 2, 'k': 1}, {'n': 2, 'k': 2})))


def b(S):
    p, g = make(S, 'prof', mask=False)
    xs = S.arr('xs', (2,))
    return p, g, [(xs, 'array')], (lambda x: x.get_interpolated_values(x=xs))


put('prof', 'values at positions', 'get_interpolated_values _get_interpolated_single_value', b, dict(LOOPS))
add('prof', 'insertion of a point into a copy', 'copy add_point', lambda S, o, g: o.copy().add_point(S.real('px'), 1.5))
add('prof', 'removal of a point from a copy', 'copy remove_point', lambda S, o, g: o.copy().remove_point(0))
add('prof', 'unit change of a copy', 'copy change_unit', lambda S, o, g: [o2.change_unit('x', 'km') or o2.change_unit('y', 'km/s') for o2 in [o.copy()]])
add('prof', 'scale', 'scale', lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True)))
add('prof', 'scale by quantities', 'scale', lambda S, o, g: o.scale(scalex=2.0 * S.make_unit('s'), scaley=-2.0 * S.make_unit('kg')))
add('prof', 'fill with a value', 'fill', lambda S, o, g: o.fill(kind='value', fill_value=S.real('v')))
add('prof', 'crop masked border', 'crop_masked_border', lambda S, o, g: o.crop_masked_border(), **LOOPS)
add('prof', 'value at a position', 'get_interpolated_values', lambda S, o, g: o.get_interpolated_values(x=S.near('px', [g.x])), **LOOPS)
add('prof', 'position of a value', 'get_value_position', lambda S, o, g: o.get_value_position(S.real('v')), **LOOPS)
add('prof', 'minimum, maximum, mean', 'min max mean', lambda S, o, g: (o.min, o.max, o.mean))
add('prof', 'integral', 'get_integral', lambda S, o, g: o.get_integral(), **LOOPS)
add('prof', 'gradient', 'get_gradient', lambda S, o, g: o.get_gradient(), mkw={'uniform': True})
SP = dict(SAMPLED, con_runs=20)
SM = dict(unbounded=False, why_bounded='small grids', sizes=({'nx': 2, 'ny': 2},), con_runs=20)
add('prof', 'removal of NaN samples', 'remove_nans', lambda S, o, g: o.remove_nans(), mkw={'nan': True}, **SP)
add('prof', 'fill by interpolation', 'fill', lambda S, o, g: o.fill(kind='slinear'), mkw={'nan': True}, **SP)
add('prof', 'smooth', 'smooth', lambda S, o, g: o.smooth(size=3), **SP)
add('prof', 'even spacing', 'evenly_space', lambda S, o, g: o.evenly_space(), mkw={'mask': False}, **SP)
add('prof', 'finer resolution', 'augment_resolution', lambda S, o, g: o.augment_resolution(fact=2, inplace=False), mkw={'mask': False}, **SP)
add('prof', 'removal of duplicates', 'remove_doublons', lambda S, o, g: o.remove_doublons(), mkw={'mask': False}, **SP)
add('prof', 'removal of outliers', 'remove_marginal_values', lambda S, o, g: o.remove_marginal_values(fact=1), mkw={'nan': True}, **SP)
add('prof', 'spectrum', 'get_spectrum', lambda S, o, g: o.get_spectrum(), mkw={'mask': False, 'lo': 4, 'uniform': True}, **SP)
add('prof', 'interpolator', 'get_interpolator', lambda S, o, g: o.get_interpolator() and None, mkw={'mask': False}, **SP)
add('prof', 'extrema', 'get_extrema_position', lambda S, o, g: o.get_extrema_position(), mkw={'mask': False, 'lo': 4}, **SP)

# ---- point sets
for v in (True, False):
    t = '' if v else ' (no values)'
    kw = {'v': v}
    add('pts', 'copy' + t, 'copy', lambda S, o, g: o.copy(), mkw=kw)
    add('pts', 'scale' + t, 'scale', lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True), scalev=S.real('sv', nz=True)), mkw=kw)
    add('pts', 'scale by quantities' + t, 'scale', lambda S, o, g: o.scale(scalex=2.0 * S.make_unit('s'), scaley=3.0 * S.make_unit('kg'), scalev=2.0 * S.make_unit('s')), mkw=kw)
    add('pts', 'rotate' + t, 'rotate', lambda S, o, g: o.rotate(S.real('a')), mkw=kw)
    add('pts', 'sort' + t, 'sort', lambda S, o, g: o.sort(ref='y'), mkw=kw)
    add('pts', 'swap of the axes' + t, 'reverse', lambda S, o, g: o.reverse(), mkw=kw)
    add('pts', 'decomposition' + t, 'decompose', lambda S, o, g: o.decompose(), mkw=kw, **LOOPS)
    add('pts', 'profile' + t, 'export_to_profile', lambda S, o, g: o.export_to_profile('x', 'y'), mkw=kw)

    def b(S, v=v):
        p, g = make(S, 'pts', v=v)
        iv, jv = [S.real('a'), S.real('b')], [S.real('c'), S.real('d')]
        return p, g, [(iv, 'list'), (jv, 'list')], (lambda x: x.crop(intervx=iv, intervy=jv, inplace=False))
    put('pts', 'crop' + t, 'crop', b, {})

    def b(S, v=v):
        p, g = make(S, 'pts', v=v)
        iv, jv = [S.real('a'), S.real('b')], [S.real('c'), S.real('d')]
        return p, g, [(iv, 'list'), (jv, 'list')], (lambda x: x.cut(intervx=iv, intervy=jv))
    put('pts', 'cut' + t, 'cut', b, {})

    def b(S, v=v):
        p, g = make(S, 'pts', v=v)
        q, h = make(S, 'pts', tag='r', n=S.n('k', 1), v=v, units=(S.make_unit('km'), S.make_unit('m'), S.make_unit('s')))
        return p, g, [(q, h)], (lambda x: x + q)
    put('pts', 'merge' + t, '__add__', b, dict(sizes=({'n': 1, 'k': 2}, {'n': 2, 'k': 2})))

    def b(S, v=v):
        p, g = make(S, 'pts', v=v)
        q = S.core.Points(unit_x='m', unit_y='mm', unit_v='s')
        return p, g, [], (lambda x: x + q)
    put('pts', 'merge with an empty set' + t, '__add__', b, {})
    add('pts', 'comparison' + t, '__eq__', lambda S, o, g: o == o.copy(), mkw=kw, **LOOPS)
    add('pts', 'insertion into a copy' + t, 'copy add', lambda S, o, g, v=v: o.copy().add([1.0, 2.0], 3.0 if v else None), mkw=kw)
    add('pts', 'removal from a copy' + t, 'copy remove', lambda S, o, g: o.copy().remove(0), mkw=kw)
    add('pts', 'origin and unit changes of a copy' + t, 'copy set_origin change_unit', lambda S, o, g: [
        (c.set_origin(1.0, 2.0), c.change_unit('x', 'km'), c.change_unit('v', 'ms')) for c in [o.copy()]] and None, mkw=kw)
    add('pts', 'removal of NaN points' + t, 'remove_nans', lambda S, o, g: o.remove_nans(), mkw=kw, **LOOPS)
    v and add('pts', 'removal of duplicates' + t, 'remove_doublons', lambda S, o, g: o.remove_doublons(), mkw=kw, **SP)
    add('pts', 'smooth' + t, 'smooth', lambda S, o, g: o.smooth(), mkw=dict(kw, lo=2), **SP)
    add('pts', 'finer resolution' + t, 'augment_resolution', lambda S, o, g: o.augment_resolution(), mkw=dict(kw, lo=2), **SP)
add('pts', 'velocity', 'get_velocity', lambda S, o, g: o.get_velocity(), mkw={'lo': 3}, **dict(LOOPS, sizes=({'n': 3},)))


def b(S):
    p, g = make(S, 'pts')
    f, h = make(S, 'sf', nx=2, ny=2, mask=False, axes=(S.np.array([-100.0, 100.0]), S.np.array([-100.0, 100.0])))
    return p, g, [(f, h)], (lambda x: x.get_evolution_on_sf(f, axe_x='x'))


put('pts', 'values of a field at the points', 'get_evolution_on_sf', b, dict(SP))

# ---- sets of fields
K2 = {'K': 2}
for kind in ('tsf', 'tvf'):
    fk = kind[1:]
    add(kind, 'copy', 'copy', lambda S, o, g: o.copy(), mkw=K2)
    add(kind, 'negation', '__neg__', lambda S, o, g: -o, mkw=K2)
    add(kind, 'square', '__pow__', lambda S, o, g: o ** 2, mkw=K2)
    for nm, f, fn in AR:
        if nm in ('times', 'over') or kind == 'tsf':
            add(kind, '%s number' % nm, fn, lambda S, o, g, f=f: f(o, S.real('k', nz=True)), mkw=K2)
            add(kind, '%s quantity' % nm, fn, lambda S, o, g, f=f: f(o, 2.0 * g.uv), mkw=K2)
        if nm in ('plus', 'minus') or kind == 'tsf':
            def b(S, kind=kind, f=f):
                o, g = make(S, kind, K=2)
                q, h = S.tf(kind[1:], 2, tag='u', times=g.t, axes=(g.x, g.y), units=(g.ux, g.uy, g.uv))
                h.kind = kind
                return o, g, [(q, h)], (lambda x: f(x, q))
            put(kind, '%s set' % nm, fn, b, {})
        if nm in ('plus', 'minus'):
            def b(S, kind=kind, f=f):
                o, g = make(S, kind, K=2)
                q, h = make(S, kind[1:], tag='w', nx=g.nx, ny=g.ny, axes=(g.x, g.y), units=(g.ux, g.uy, g.uv))
                return o, g, [(q, h)], (lambda x: f(x, q))
            put(kind, '%s field' % nm, fn, b, {})
    for a in (90, 180):
        add(kind, 'rotate %d' % a, 'rotate', lambda S, o, g, a=a: o.rotate(a), mkw=K2)
    add(kind, 'scale', 'scale', lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=-2.0, scalev=S.real('sv', nz=True), scalet=S.real('st', nz=True)), mkw=K2)
    add(kind, 'scale by quantities', 'scale', lambda S, o, g: o.scale(scalex=2.0 * S.make_unit('s'), scalet=-2.0 * S.make_unit('kg')), mkw=K2)

    def b(S, kind=kind):
        o, g = make(S, kind, K=2)
        iv, jv, tv = [S.el(g.x, 0), S.near('b', [g.x])], [S.near('c', [g.y]), S.el(g.y, g.ny - 1)], [S.near('ta', [S.np.array(g.t)]) if not S.symbolic else S.real('ta'), g.t[1]]
        return o, g, [(iv, 'list'), (jv, 'list'), (tv, 'list')], (lambda x: x.crop(intervx=iv, intervy=jv, intervt=tv))
    put(kind, 'crop', 'crop', b, {})
    add(kind, 'crop to indices', 'crop', lambda S, o, g: o.crop(intervx=[0, S.int('b', 0, g.nx)], intervt=[0, 1], ind=True), mkw=K2)
    add(kind, 'extend', 'extend', lambda S, o, g: o.extend(nmb_left=S.int('l', 0, 3), nmb_up=S.int('u', 0, 3)), mkw=K2)
    add(kind, 'fill with a value', 'fill', lambda S, o, g: o.fill(tof='spatial', kind='value', value=S.real('v')), mkw=K2)
    add(kind, 'crop masked border', 'crop_masked_border', lambda S, o, g: o.crop_masked_border(), mkw=K2, sizes=({'nx': 2, 'ny': 2},), **NODES)
    add(kind, 'coarsening', 'reduce_spatial_resolution', lambda S, o, g: o.reduce_spatial_resolution(2), mkw=K2, sizes=({'nx': 2, 'ny': 2},), **NODES)
    add(kind, 'time coarsening', 'reduce_temporal_resolution', lambda S, o, g: o.reduce_temporal_resolution(2), mkw={'K': 3})
    add(kind, 'time coarsening without mean', 'reduce_temporal_resolution', lambda S, o, g: o.reduce_temporal_resolution(2, mean=False), mkw={'K': 3})
    add(kind, 'time coarsening by 1', 'reduce_temporal_resolution', lambda S, o, g: o.reduce_temporal_resolution(1), mkw=K2)
    add(kind, 'time refinement', 'augment_temporal_resolution', lambda S, o, g: o.augment_temporal_resolution(2), mkw=K2, sizes=({'nx': 2, 'ny': 2},), **NODES)
    add(kind, 'time refinement by 1', 'augment_temporal_resolution', lambda S, o, g: o.augment_temporal_resolution(1), mkw=K2)
    add(kind, 'mean', 'get_mean_field', lambda S, o, g: o.get_mean_field(), mkw=K2)
    add(kind, 'fluctuations', 'get_fluctuant_fields', lambda S, o, g: o.get_fluctuant_fields(), mkw=K2)
    add(kind, 'field at a time', 'get_interpolated_field', lambda S, o, g: o.get_interpolated_field(g.t[0]), mkw=K2)
    add(kind, 'field between times', 'get_interpolated_field', lambda S, o, g: o.get_interpolated_field((g.t[0] + g.t[1]) / 2.0), mkw=K2)
    add(kind, 'time profile', 'get_time_profile', lambda S, o, g, c='values' if kind == 'tsf' else 'comp_y': o.get_time_profile(c, [S.int('i', 0, g.nx - 1), S.int('j', 0, g.ny - 1)], ind=True), mkw=K2)
    add(kind, 'time profile between times', 'get_time_profile', lambda S, o, g, c='values' if kind == 'tsf' else 'comp_x': o.get_time_profile(c, [0, 0], ind=True, wanted_times=[g.t[0], g.t[1]]), mkw=K2)
    add(kind, 'mask views', 'mask mask_cum mask_cum_as_sf', lambda S, o, g: (o.mask, o.mask_cum, o.mask_cum_as_sf), mkw=K2)
    add(kind, 'comparison', '__eq__', lambda S, o, g: o == o.copy(), mkw=K2, **SM)
    add(kind, 'mirroring', 'mirroring', lambda S, o, g: o.mirroring('x', S.el(g.x, 0), interp='value', value=1.0 if g.kind == 'tsf' else [1.0, 2.0]), mkw={'K': 2, 'uniform': True}, **SP)
    add(kind, 'smooth', 'smooth', lambda S, o, g: o.smooth(), mkw={'K': 2, 'mask': False}, **SP)
    add(kind, 'recurrence map', 'get_recurrence_map', lambda S, o, g: o.get_recurrence_map(), mkw={'K': 2, 'mask': False}, **SM)
    kind == 'tvf' and add(kind, 'removal of odd fields', 'remove_weird_fields', lambda S, o, g: o.remove_weird_fields(std_coef=1.0), mkw={'K': 3, 'mask': False}, **SM)
    add(kind, 'removal from a copy', 'copy remove_fields', lambda S, o, g: o.copy().remove_fields(0), mkw=K2)
    add(kind, 'origin and unit changes of a copy', 'copy set_origin change_unit', lambda S, o, g: [
        (c.set_origin(1.0, 2.0), c.change_unit('x', 'km'), c.change_unit('values', 'km/s'), c.change_unit('time', 'ms')) for c in [o.copy()]] and None, mkw=K2)
    add(kind, 'fill in time', 'fill', lambda S, o, g: o.fill(tof='temporal', kind='value', value=2.0), mkw={'K': 4}, **SM)
add('tsf', 'minimum and maximum in time', 'get_min_field get_max_field', lambda S, o, g: (o.get_min_field(), o.get_max_field()), mkw=K2)
add('tsf', 'values', 'values', lambda S, o, g: o.values, mkw=K2)
add('tvf', 'component and magnitude sets', 'Vx_as_sf Vy_as_sf magnitude_as_sf', lambda S, o, g: (o.Vx_as_sf, o.Vy_as_sf, o.magnitude_as_sf), mkw=K2)
add('tvf', 'component arrays', 'Vx Vy magnitude', lambda S, o, g: (o.Vx, o.Vy, o.magnitude), mkw=K2)
add('tvf', 'kinetic energy', 'get_tke get_mean_tke get_mean_kinetic_energy', lambda S, o, g: (o.get_tke(), o.get_mean_tke(), o.get_mean_kinetic_energy()), mkw=K2)
add('tvf', 'Reynolds stresses', 'get_reynolds_stress', lambda S, o, g: o.get_reynolds_stress(), mkw=K2, sizes=({'nx': 2, 'ny': 2},), **NODES)

# ---- queries on fields, and transformations not in ops
for kind in ('sf', 'vf'):
    c = () if kind == 'sf' else ('vx',)
    add(kind, 'index on an axis', 'get_indice_on_axe', lambda S, o, g: (o.get_indice_on_axe(1, S.near('a', [g.x])), o.get_indice_on_axe(2, S.near('b', [g.y]), kind='nearest')))
    add(kind, 'value at a node', 'get_value', lambda S, o, g: o.get_value(S.int('i', 0, g.nx - 1), S.int('j', 0, g.ny - 1), ind=True))
    add(kind, 'value at a node with unit', 'get_value', lambda S, o, g: o.get_value(0, 0, ind=True, unit=True))
    add(kind, 'value at a position', 'get_value', lambda S, o, g: o.get_value(S.near('a', [g.x]), S.near('b', [g.y])), **NODES)
    for d in ('x', 'y'):
        add(kind, 'profile along a line of constant %s' % d, 'get_profile', lambda S, o, g, c=c, d=d: o.get_profile(*c + (d, S.int('i', 0, (g.nx if d == 'x' else g.ny) - 1)), ind=True))

        def b(S, kind=kind, c=c, d=d):
            o, g = make(S, kind)
            ax = g.x if d == 'x' else g.y
            iv = [S.el(ax, 0), S.near('b', [ax])]
            return o, g, [(iv, 'list')], (lambda x: x.get_profile(*c + (d, iv)))
        put(kind, 'profile averaged over an interval of %s' % d, 'get_profile', b, dict(SM))
    add(kind, 'minimum and maximum', 'min max', lambda S, o, g: (o.min, o.max))
    add(kind, 'norm', 'get_norm', lambda S, o, g: o.get_norm())
    add(kind, 'mask as a field', 'mask_as_sf', lambda S, o, g: o.mask_as_sf)
    add(kind, 'iteration', '__iter__', lambda S, o, g: [1 for _ in o] and None, sizes=({'nx': 2, 'ny': 2},), **NODES)
    add(kind, 'comparison', '__eq__', lambda S, o, g: o == o.copy(), **SM)
    add(kind, 'properties', 'get_props', lambda S, o, g: o.get_props() and None, **SP)
    add(kind, 'points around', 'get_points_around', lambda S, o, g: o.get_points_around([1, 1], 2, ind=True), **SM)
    add(kind, 'fill by interpolation', 'fill', lambda S, o, g: o.fill(kind='nearest'), **SP)
    add(kind, 'smooth', 'smooth', lambda S, o, g: o.smooth(), mkw={'mask': False}, **SP)
    for d in ('x', 'y'):
        add(kind, 'mirroring %s' % d, 'mirroring', lambda S, o, g, d=d: o.mirroring(d, S.el(g.x if d == 'x' else g.y, 0)), mkw={'uniform': True}, **SP)
        add(kind, 'mirroring %s with a value' % d, 'mirroring', lambda S, o, g, d=d, kind=kind: o.mirroring(d, S.el(g.x if d == 'x' else g.y, 0) - 1.0, interp='value', value=1.0 if kind == 'sf' else [1.0, 2.0]), mkw={'uniform': True}, **SP)
    add(kind, 'changes of a copy', 'copy set_origin change_unit', lambda S, o, g: [
        (q.set_origin(1.0, 2.0), q.change_unit('x', 'km'), q.change_unit('y', 'km'), q.change_unit('values', 'km/s')) for q in [o.copy()]] and None)
    add(kind, 'even spacing of a copy', 'make_evenly_spaced', lambda S, o, g: o.copy().make_evenly_spaced(), mkw={'mask': False}, **SP)
add('sf', 'mean', 'mean', lambda S, o, g: o.mean)
add('sf', 'integral over the surface', 'integrate_over_surface', lambda S, o, g: o.integrate_over_surface(), mkw={'mask': False}, **NODES)


def b(S):
    o, g = make(S, 'sf', mask=False)
    iv = [S.el(g.x, 0), S.near('b', [g.x])]
    return o, g, [(iv, 'list')], (lambda x: x.integrate_over_line('x', iv))


put('sf', 'integral over a line', 'integrate_over_line', b, dict(SM))
add('sf', 'export to scatter points', 'export_to_scatter', lambda S, o, g: o.export_to_scatter(), **NODES)
add('sf', 'histogram', 'get_histogram', lambda S, o, g: o.get_histogram(), mkw={'mask': False}, **SP)
add('sf', 'autocorrelation', 'get_spatial_autocorrelation', lambda S, o, g: o.get_spatial_autocorrelation('x'), mkw={'mask': False}, **SP)
add('sf', 'zones centres', 'get_zones_centers', lambda S, o, g: o.get_zones_centers(), mkw={'mask': False}, **SP)
add('sf', 'nearest extrema', 'get_nearest_extrema', lambda S, o, g: o.get_nearest_extrema([[1, 1]], ind=True), mkw={'mask': False}, **SP)
add('vf', 'component views', 'comp_x_as_sf comp_y_as_sf', lambda S, o, g: (o.comp_x_as_sf, o.comp_y_as_sf))
add('vf', 'magnitude', 'magnitude magnitude_as_sf', lambda S, o, g: (o.magnitude, o.magnitude_as_sf))
add('vf', 'angle', 'theta theta_as_sf', lambda S, o, g: (o.theta, o.theta_as_sf), **SP)
