"""C05: scaling and origin shifts move coordinates and values exactly."""
from vc.spec import contract
from .common import mk, node_map, same_as_ghost, gvals

FN = {'sf': ['Field.scale', 'ScalarField.scale'], 'vf': ['Field.scale', 'VectorField.scale']}


def quantity(S, name, how):
    """(argument, numeric factor, unit factor)"""
    if how is None:
        return None, 1.0, None
    f = S.real(name, nz=True)
    if how == 'number':
        return f, f, None
    u = S.make_unit('s')
    return f * u, f, u


def scaled(S, c, g, fx, fy, fv, ux, uy, uv, label='result'):
    vec = not hasattr(g, 'v')
    rx, ry = S.split(S.lt(fx, 0)), S.split(S.lt(fy, 0))
    I = (lambda i: g.nx - 1 - i) if rx else (lambda i: i)
    J = (lambda j: g.ny - 1 - j) if ry else (lambda j: j)

    def vals(i, j):
        vs = [v * fv for v in gvals(S, g, I(i), J(j))]
        if vec:
            vs = [-vs[0] if rx else vs[0], -vs[1] if ry else vs[1]]
        return vs
    node_map(S, c, g.nx, g.ny, lambda i: S.el(g.x, I(i)) * fx, lambda j: S.el(g.y, J(j)) * fy,
             lambda i, j: S.gm(g, I(i), J(j)), vals, g.ux * ux if ux is not None else g.ux,
             g.uy * uy if uy is not None else g.uy, g.uv * uv if uv is not None else g.uv, label)


def scale(kind, hx, hy, hv, inplace):
    def f(S):
        o, g = mk(S, kind)
        ax, fx, ux = quantity(S, 'sx', hx)
        ay, fy, uy = quantity(S, 'sy', hy)
        av, fv, uv = quantity(S, 'sv', hv)
        kw = {}
        for n, h, a in (('scalex', hx, ax), ('scaley', hy, ay), ('scalev', hv, av)):
            if h is not None:
                kw[n] = a
        r = S.run('scale', o.scale, inplace=inplace, **kw)
        c = o if inplace else r
        S.must('scale gives a field of the same kind', S.isinst(c, type(o)))
        scaled(S, c, g, fx, fy, fv, ux, uy, uv)
        if not inplace:
            same_as_ghost(S, o, g, 'original')
    return f


def origin(kind, which):
    def f(S):
        o, g = mk(S, kind)
        dx, dy = S.real('dx'), S.real('dy')
        kw = {}
        if 'x' in which:
            kw['x'] = dx
        if 'y' in which:
            kw['y'] = dy
        S.run('set_origin', o.set_origin, **kw)
        node_map(S, o, g.nx, g.ny, lambda i: S.el(g.x, i) - (dx if 'x' in which else 0.0),
                 lambda j: S.el(g.y, j) - (dy if 'y' in which else 0.0), lambda i, j: S.gm(g, i, j),
                 lambda i, j: gvals(S, g, i, j), g.ux, g.uy, g.uv)
    return f


def back(kind):
    """Scaling and scaling back by the inverse factors restores the field."""
    def f(S):
        o, g = mk(S, kind)
        fx, fy, fv = S.real('sx', nz=True), S.real('sy', nz=True), S.real('sv', nz=True)
        c = S.run('scale', o.scale, scalex=fx, scaley=fy, scalev=fv)
        d = S.run('scale back', c.scale, scalex=S.div(1.0, fx), scaley=S.div(1.0, fy), scalev=S.div(1.0, fv))
        same_as_ghost(S, d, g, 'scaled back')
    return f


N, Q = 'number', 'quantity'
for kind in ('sf', 'vf'):
    for hs, inplace in (((N, None, None), False), ((None, N, None), False), ((None, None, N), False), ((N, N, N), False),
                        ((N, N, N), True), ((Q, None, None), False), ((None, Q, None), False), ((None, None, Q), False),
                        ((Q, Q, Q), True), ((None, None, None), False)):
        contract('C05', '%s scale x=%s y=%s v=%s%s' % ((kind,) + hs + (', in place' if inplace else '',)), FN[kind])(scale(kind, *hs, inplace))
    for w in ('x', 'y', 'xy', ''):
        contract('C05', '%s set_origin %s' % (kind, w or 'nothing'), ['Field.set_origin'])(origin(kind, w))
    contract('C05', '%s scale and back' % kind, FN[kind])(back(kind))
