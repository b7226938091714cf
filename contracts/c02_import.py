"""C02: importing arrays attaches every value and mask flag to its node."""
from vc.spec import contract

FN = {'sf': ['ScalarField.import_from_arrays', 'ScalarField.values', 'Field.axe_x', 'Field.axe_y', 'Field.unit_x', 'ScalarField.unit_values'],
      'vf': ['VectorField.import_from_arrays', 'VectorField.mask', 'VectorField.comp_x', 'VectorField.comp_y', 'Field.axe_x', 'Field.axe_y']}


def imp(kind, descx, descy, transposed, mk, grid):
    def f(S):
        lo = 2 if grid else 1
        nx, ny = S.n('nx', lo), S.n('ny', lo)
        if transposed:
            S.assume(S.Not(S.eqn(nx, ny)))
        x, y = S.axis('x', nx), S.axis('y', ny)
        shape = (ny, nx) if transposed else (nx, ny)
        vs = [S.arr('v', shape, nan=True)] if kind == 'sf' else [S.arr('vx', shape, nan=True), S.arr('vy', shape, nan=True)]
        mask = {'none': None, 'false': False, 'true': True}.get(mk)
        if mk == 'arr':
            mask = S.boolarr('m', shape)
        dx = descx == 'yes' or (descx == 'any' and S.bool('descx'))
        dy = descy == 'yes' or (descy == 'any' and S.bool('descy'))
        xi = x[::-1] if dx else x
        yi = y[::-1] if dy else y
        if grid:
            xi, yi = S.np.meshgrid(xi, yi, indexing=grid)
        ux, uy, uv = S.make_unit('m'), S.make_unit('mm'), S.make_unit('m/s')
        o = S.core.ScalarField() if kind == 'sf' else S.core.VectorField()
        kw = {} if mk == 'none' else {'mask': mask}
        snaps = [(a, S.snap(a)) for a in [xi, yi] + vs + ([mask] if mk == 'arr' else [])]
        S.run('import', o.import_from_arrays, xi, yi, *vs, unit_x=ux, unit_y=uy, unit_values=uv, **kw)
        S.check('axis lengths', S.And(S.eqn(S.length(o.axe_x), nx), S.eqn(S.length(o.axe_y), ny)))
        S.check('axes are vectors', S.ndim(o.axe_x) == 1 and S.ndim(o.axe_y) == 1)
        S.check_all('x axis in increasing order', (nx,), lambda i: S.eq(S.el(o.axe_x, i), S.el(x, i)))
        S.check_all('y axis in increasing order', (ny,), lambda j: S.eq(S.el(o.axe_y, j), S.el(y, j)))
        for k, c in enumerate(S.comps(o)):
            S.must('values are 2-D %d' % k, S.ndim(c) == 2)
            S.check('values shape %d' % k, S.And(S.eqn(S.dim(c, 0), nx), S.eqn(S.dim(c, 1), ny)))
        S.must('mask is a 2-D boolean array', S.ndim(o.mask) == 2 and S.kind(o.mask) == 'b')
        S.check('mask shape', S.And(S.eqn(S.dim(o.mask, 0), nx), S.eqn(S.dim(o.mask, 1), ny)))

        def src(a, i, j):
            i_ = nx - 1 - i if dx else i
            j_ = ny - 1 - j if dy else j
            return S.el(a, j_, i_) if transposed else S.el(a, i_, j_)

        def flag(i, j):
            m = src(mask, i, j) if mk == 'arr' else (mk == 'true')
            return S.Or(m, *[S.isnan(src(v, i, j)) for v in vs])
        S.check_all('mask flag of the node', (nx, ny), lambda i, j: S.iff(S.el(o.mask, i, j), flag(i, j)))
        S.check_all('value of the node', (nx, ny), lambda i, j: S.cell(o, i, j, flag(i, j), [src(v, i, j) for v in vs]))
        S.check('units', S.And(S.ueq(o.unit_x, ux), S.ueq(o.unit_y, uy), S.ueq(o.unit_values, uv)))
        mine = [o.axe_x, o.axe_y, o.mask] + S.comps(o)
        for a, s in snaps:
            S.check('caller arrays untouched', S.unchanged(a, s))
            for b in mine:
                S.check('no reference to caller arrays', S.disjoint(a, b))
    return f


SZ = ({'nx': 2, 'ny': 2}, {'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2})
SZT = ({'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2})
for kind in ('sf', 'vf'):
    for mk in ('none', 'false', 'true', 'arr'):
        contract('C02', '%s mask=%s, both axis orders' % (kind, mk), FN[kind])(imp(kind, 'any', 'any', False, mk, None))
    for mk in ('none', 'arr'):
        contract('C02', '%s transposed arrays, mask=%s' % (kind, mk), FN[kind], sizes=SZT)(imp(kind, 'any', 'any', True, mk, None))
    for grid in ('ij', 'xy'):
        contract('C02', '%s coordinate grids (%s)' % (kind, grid), FN[kind])(imp(kind, 'any', 'any', False, 'arr', grid))
