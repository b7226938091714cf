"""C04: rotating by multiples of 90 degrees is the geometric rotation."""
from vc.spec import contract
from .common import mk, node_map, same_as_ghost

FN = {'sf': ['Field.rotate', 'ScalarField.rotate'], 'vf': ['Field.rotate', 'VectorField.rotate']}


def turned(S, c, g, q, label='result'):
    """c is g turned by q quarter turns (counter-clockwise) about the origin."""
    nx, ny = g.nx, g.ny
    vec = not hasattr(g, 'v')

    def src(i, j):
        return {0: (i, j), 1: (j, ny - 1 - i), 2: (nx - 1 - i, ny - 1 - j), 3: (nx - 1 - j, i)}[q]
    X = {0: lambda i: S.el(g.x, i), 1: lambda i: -S.el(g.y, ny - 1 - i), 2: lambda i: -S.el(g.x, nx - 1 - i),
         3: lambda i: S.el(g.y, i)}[q]
    Y = {0: lambda j: S.el(g.y, j), 1: lambda j: S.el(g.x, j), 2: lambda j: -S.el(g.y, ny - 1 - j),
         3: lambda j: -S.el(g.x, nx - 1 - j)}[q]

    def vals(i, j):
        s = src(i, j)
        if not vec:
            return [S.el(g.v, *s)]
        a, b = S.el(g.vx, *s), S.el(g.vy, *s)
        return {0: [a, b], 1: [-b, a], 2: [-a, -b], 3: [b, -a]}[q]
    m, n = (nx, ny) if q % 2 == 0 else (ny, nx)
    ux, uy = (g.ux, g.uy) if q % 2 == 0 else (g.uy, g.ux)
    node_map(S, c, m, n, X, Y, lambda i, j: S.gm(g, *src(i, j)), vals, ux, uy, g.uv, label)


def rot(kind, angles, inplace):
    def f(S):
        o, g = mk(S, kind)
        ang = S.choice('angle', angles)
        r = S.run('rotate', o.rotate, ang, inplace=inplace)
        c = o if inplace else r
        S.must('rotate gives a field of the same kind', S.isinst(c, type(o)))
        turned(S, c, g, int(ang // 90) % 4)
        if not inplace:
            same_as_ghost(S, o, g, 'original')
    return f


def thin(kind, side):
    """Fields with a single column or row (obtained by cropping)."""
    def f(S):
        o, g = mk(S, kind)
        k = S.int('k', 1, (g.nx if side == 'x' else g.ny) - 1)
        S.run('crop', o.crop, **{'interv' + side: [k, k], 'ind': True, 'inplace': True})
        ang = S.choice('angle', [90, 180, 270])
        c = S.run('rotate', o.rotate, ang)
        q = ang // 90
        x0, y0 = (lambda i: S.el(g.x, k if side == 'x' else i)), (lambda j: S.el(g.y, k if side == 'y' else j))
        nx, ny = (1, g.ny) if side == 'x' else (g.nx, 1)
        X = {1: lambda i: -y0(ny - 1 - i), 2: lambda i: -x0(nx - 1 - i), 3: lambda i: y0(i)}[q]
        Y = {1: lambda j: x0(j), 2: lambda j: -y0(ny - 1 - j), 3: lambda j: -x0(nx - 1 - j)}[q]
        m, n = (nx, ny) if q == 2 else (ny, nx)
        S.check('axis lengths', S.And(S.eqn(S.length(c.axe_x), m), S.eqn(S.length(c.axe_y), n)))
        S.check_all('x of every node', (m,), lambda i: S.eq(S.el(c.axe_x, i), X(i)))
        S.check_all('y of every node', (n,), lambda j: S.eq(S.el(c.axe_y, j), Y(j)))
    return f


def full(kind, steps):
    def f(S):
        o, g = mk(S, kind)
        c = o
        for a in steps:
            c = S.run('rotate %s' % a, c.rotate, a)
        turned(S, c, g, int(sum(steps) // 90) % 4, 'after the turns')
    return f


def reject(kind, inplace):
    def f(S):
        o, g = mk(S, kind)
        r = S.call(o.rotate, S.choice('angle', [45, 89.5, -30, 1, 100, 0.5, 359]), inplace=inplace)
        S.check('an angle that is no multiple of 90 degrees is rejected', not r.ok)
        same_as_ghost(S, o, g, 'original')
    return f


for kind in ('sf', 'vf'):
    contract('C04', '%s quarter turns' % kind, FN[kind])(rot(kind, [0, 90, 180, 270], False))
    contract('C04', '%s other multiples of 90' % kind, FN[kind])(rot(kind, [360, -90, -180, -270, 450, 540, -810, 90.0, 720.0], False))
    contract('C04', '%s quarter turns, in place' % kind, FN[kind])(rot(kind, [0, 90, 180, 270, -90], True))
    contract('C04', '%s single column' % kind, FN[kind] + ['Field.crop'])(thin(kind, 'x'))
    contract('C04', '%s single row' % kind, FN[kind] + ['Field.crop'])(thin(kind, 'y'))
    contract('C04', '%s four quarter turns' % kind, FN[kind])(full(kind, [90, 90, 90, 90]))
    contract('C04', '%s turn and back' % kind, FN[kind])(full(kind, [270, 180, -90]))
    contract('C04', '%s other angles' % kind, FN[kind])(reject(kind, False))
    contract('C04', '%s other angles, in place' % kind, FN[kind])(reject(kind, True))
