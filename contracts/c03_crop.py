"""C03: cropping keeps exactly the nodes inside the window, unchanged."""
from vc.spec import contract

BASE = ['Field.crop', 'Field.get_indice_on_axe']
FN = {'sf': BASE + ['ScalarField.crop', 'ScalarField.import_from_arrays'],
      'vf': BASE + ['VectorField.crop', 'VectorField.import_from_arrays']}


def kept(S, c, g, i0, i1, j0, j1):
    """c consists of the nodes [i0,i1[ x [j0,j1[ of the field described by g."""
    nx, ny = i1 - i0, j1 - j0
    S.check('number of kept nodes', S.And(S.eqn(S.length(c.axe_x), nx), S.eqn(S.length(c.axe_y), ny)))
    S.check_all('x of kept nodes', (nx,), lambda i: S.eq(S.el(c.axe_x, i), S.el(g.x, i0 + i)))
    S.check_all('y of kept nodes', (ny,), lambda j: S.eq(S.el(c.axe_y, j), S.el(g.y, j0 + j)))
    for k, a in enumerate(S.comps(c)):
        S.check('one value per kept node (%d)' % k, S.ndim(a) == 2 and S.And(S.eqn(S.dim(a, 0), nx), S.eqn(S.dim(a, 1), ny)))
    S.check('one mask flag per kept node', S.ndim(c.mask) == 2 and S.And(S.eqn(S.dim(c.mask, 0), nx), S.eqn(S.dim(c.mask, 1), ny)))
    S.check_all('value and mask of kept nodes', (nx, ny), lambda i, j: S.cell(
        c, i, j, S.gm(g, i0 + i, j0 + j), [S.el(v, i0 + i, j0 + j) for v in S.gcomps(g)]))
    S.check('units kept', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy), S.ueq(c.unit_values, g.uv)))


def by_value(kind, sides, inplace):
    def f(S):
        o, g = S.sf() if kind == 'sf' else S.vf()
        kw = {'inplace': inplace}
        lox, hix, loy, hiy = S.el(g.x, 0), S.el(g.x, -1), S.el(g.y, 0), S.el(g.y, -1)
        if 'x' in sides:
            lox, hix = S.near('a', [g.x]), S.near('b', [g.x])
            kw['intervx'] = [lox, hix]
        if 'y' in sides:
            loy, hiy = S.near('c', [g.y]), S.near('d', [g.y])
            kw['intervy'] = [loy, hiy]
        off = S.Or(S.lt(hix, lox), S.lt(hiy, loy), S.lt(hix, S.el(g.x, 0)), S.lt(S.el(g.x, -1), lox),
                   S.lt(hiy, S.el(g.y, 0)), S.lt(S.el(g.y, -1), loy))
        i0, i1 = S.rank_ge(g.x, lox), S.rank_gt(g.x, hix)
        j0, j1 = S.rank_ge(g.y, loy), S.rank_gt(g.y, hiy)
        r = S.call(o.crop, **kw)
        if not r.ok:
            S.check('rejected only if reversed or off the field', off, r)
            return
        S.check('a window off the field is rejected', S.Not(off))
        c = o if inplace else r.value
        S.must('crop gives a field of the same kind', S.isinst(c, type(o)))
        kept(S, c, g, i0, i1, j0, j1)
    return f


def by_index(kind, sides, inplace):
    def f(S):
        o, g = S.sf() if kind == 'sf' else S.vf()
        kw = {'inplace': inplace, 'ind': True}
        i0, i1, j0, j1 = 0, g.nx, 0, g.ny
        if 'x' in sides:
            a, b = S.int('a', 0, g.nx - 1), S.int('b', 0, g.nx + 1)
            S.assume(S.le(a, b))
            kw['intervx'] = [a, b]
            i0, i1 = a, S.ite(S.lt(b, g.nx), b + 1, g.nx)
        if 'y' in sides:
            a, b = S.int('c', 0, g.ny - 1), S.int('d', 0, g.ny + 1)
            S.assume(S.le(a, b))
            kw['intervy'] = [a, b]
            j0, j1 = a, S.ite(S.lt(b, g.ny), b + 1, g.ny)
        r = S.run('crop by index', o.crop, **kw)
        c = o if inplace else r
        S.must('crop gives a field of the same kind', S.isinst(c, type(o)))
        kept(S, c, g, i0, i1, j0, j1)
    return f


for kind in ('sf', 'vf'):
    for sides, inplace in (('x', False), ('y', False), ('xy', False), ('xy', True)):
        contract('C03', '%s crop to coordinates, sides %s%s' % (kind, sides, ', in place' if inplace else ''), FN[kind])(by_value(kind, sides, inplace))
    for sides, inplace in (('x', False), ('xy', True), ('y', False)):
        contract('C03', '%s crop to indices, sides %s%s' % (kind, sides, ', in place' if inplace else ''), FN[kind])(by_index(kind, sides, inplace))
