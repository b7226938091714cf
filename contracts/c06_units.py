"""C06: changing units preserves the physical quantity."""
from vc.spec import contract
from .common import mk, node_map, same_as_ghost, gvals

FN = {'sf': ['Field.change_unit', 'ScalarField.change_unit'], 'vf': ['Field.change_unit', 'VectorField.change_unit']}
PN = ['Profile.change_unit', 'Points.change_unit']


def fields(kind, axe, back):
    def f(S):
        old, fo = S.unit('old', S.make_unit('m'))
        new, fn = S.unit('new', S.make_unit('m'))
        other = S.make_unit('s')
        units = {'x': (old, other, other), 'y': (other, old, other), 'values': (other, other, old)}[axe]
        o, g = mk(S, kind, units=units)
        S.run('change_unit', o.change_unit, axe, new)
        if back:
            S.run('change back', o.change_unit, axe, old)
            k, u = 1.0, old
        else:
            k, u = S.div(fo, fn), new
        kx, ky, kv = (k if axe == a else 1.0 for a in ('x', 'y', 'values'))
        ux, uy, uv = (u if axe == a else other for a in ('x', 'y', 'values'))
        node_map(S, o, g.nx, g.ny, lambda i: S.el(g.x, i) * kx, lambda j: S.el(g.y, j) * ky, lambda i, j: S.gm(g, i, j),
                 lambda i, j: [v * kv for v in gvals(S, g, i, j)], ux, uy, uv)
    return f


def named(kind):
    """Unit given as a string; prefixes of real units."""
    def f(S):
        o, g = mk(S, kind)
        axe, new, k = S.choice('case', [('x', 'mm', 1e3), ('x', 'km', 1e-3), ('y', 'm', 1e-3), ('y', 'um', 1e3),
                                        ('values', 'mm/s', 1e3), ('values', 'm/ms', 1e-3)])
        S.run('change_unit', o.change_unit, axe, new)
        kx, ky, kv = (k if axe == a else 1.0 for a in ('x', 'y', 'values'))
        us = {'x': g.ux, 'y': g.uy, 'values': g.uv}
        us[axe] = S.make_unit(new)
        node_map(S, o, g.nx, g.ny, lambda i: S.el(g.x, i) * kx, lambda j: S.el(g.y, j) * ky, lambda i, j: S.gm(g, i, j),
                 lambda i, j: [v * kv for v in gvals(S, g, i, j)], us['x'], us['y'], us['values'])
    return f


def bad(kind):
    def f(S):
        o, g = mk(S, kind)
        axe, new = S.choice('case', [('x', 's'), ('y', 'kg'), ('values', 'm'), ('z', 'm'), ('x', 'm/s'), ('y', '')])
        r = S.call(o.change_unit, axe, new)
        S.check('incompatible unit or unknown axis is rejected', not r.ok)
        same_as_ghost(S, o, g, 'object after the rejected change')
    return f


def profile(axe, back):
    def f(S):
        old, fo = S.unit('old', S.make_unit('m'))
        new, fn = S.unit('new', S.make_unit('m'))
        other = S.make_unit('s')
        p, g = S.prof(units=(old, other) if axe == 'x' else (other, old))
        S.run('change_unit', p.change_unit, axe, new)
        k, u = S.div(fo, fn), new
        if back:
            S.run('change back', p.change_unit, axe, old)
            k, u = 1.0, old
        kx, ky = (k, 1.0) if axe == 'x' else (1.0, k)
        S.prof_is('profile', p, g.n, lambda i: S.el(g.x, i) * kx, lambda i: S.pm(g, i), lambda i: S.el(g.y, i) * ky,
                  u if axe == 'x' else other, u if axe == 'y' else other)
    return f


def profile_bad(S):
    p, g = S.prof()
    axe, new = S.choice('case', [('x', 's'), ('y', 'kg'), ('z', 'm')])
    r = S.call(p.change_unit, axe, new)
    S.check('incompatible unit or unknown axis is rejected', not r.ok)
    S.prof_same('profile after the rejected change', p, g)


def points(axe, back, vals):
    def f(S):
        old, fo = S.unit('old', S.make_unit('m'))
        new, fn = S.unit('new', S.make_unit('m'))
        other = S.make_unit('s')
        p, g = S.pts(units=tuple(old if axe == a else other for a in 'xyv'), v=vals)
        S.run('change_unit', p.change_unit, axe, new)
        k, u = S.div(fo, fn), new
        if back:
            S.run('change back', p.change_unit, axe, old)
            k, u = 1.0, old
        kx, ky, kv = (k if axe == a else 1.0 for a in 'xyv')
        S.pts_is('points', p, g.n, lambda i: S.el(g.xy, i, 0) * kx, lambda i: S.el(g.xy, i, 1) * ky,
                 (lambda i: S.el(g.v, i) * kv) if vals else None, *[u if axe == a else other for a in 'xyv'])
    return f


def points_bad(S):
    p, g = S.pts()
    axe, new = S.choice('case', [('x', 's'), ('y', 'kg'), ('v', 'm'), ('z', 'm')])
    r = S.call(p.change_unit, axe, new)
    S.check('incompatible unit or unknown axis is rejected', not r.ok)
    S.pts_same('points after the rejected change', p, g)


for kind in ('sf', 'vf'):
    for axe in ('x', 'y', 'values'):
        contract('C06', '%s %s' % (kind, axe), FN[kind])(fields(kind, axe, False))
        contract('C06', '%s %s and back' % (kind, axe), FN[kind])(fields(kind, axe, True))
    contract('C06', '%s units given by name' % kind, FN[kind] + ['make_unit'])(named(kind))
    contract('C06', '%s incompatible units' % kind, FN[kind])(bad(kind))
SZ = ({'n': 2}, {'n': 3})
for axe in 'xy':
    contract('C06', 'profile %s' % axe, ['Profile.change_unit'], sizes=SZ)(profile(axe, False))
    contract('C06', 'profile %s and back' % axe, ['Profile.change_unit'], sizes=SZ)(profile(axe, True))
contract('C06', 'profile incompatible units', ['Profile.change_unit'], sizes=SZ)(profile_bad)
for axe in 'xyv':
    contract('C06', 'points %s' % axe, ['Points.change_unit'], sizes=SZ)(points(axe, False, True))
    contract('C06', 'points %s and back' % axe, ['Points.change_unit'], sizes=SZ)(points(axe, True, True))
for axe in 'xy':
    contract('C06', 'points without values %s' % axe, ['Points.change_unit'], sizes=SZ)(points(axe, False, False))
contract('C06', 'points incompatible units', ['Points.change_unit'], sizes=SZ)(points_bad)
